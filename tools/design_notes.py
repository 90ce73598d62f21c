# id -> (how it is decided: oracle and what is symbolic, what is modelled or outside)
N={}
def n(i,how,out): N[i]=(how,out)
n("F01","Int over the plaintext scheduler; every operator's opened result against C++ arithmetic reduced to the width","widths listed; other widths share the templates")
n("F02","Bit and BitString operators, every public/secret and scalar/batch mix, against boolean algebra","")
n("F03","every history of a few copies, moves, assignments, destructions and operations; a counting keeper shows which wires are live, values are compared after each step, the arena must be empty at the end","histories bounded")
n("F04","batchingWith/unbatching for every split of sizes against concatenation","sizes bounded; BitString/Int batchingWith for public values does not compile in this tree and is outside")
n("S01","the same symbolic program of operations on the eager, lazy and plaintext schedulers with an ideal engine; results and announced sizes compared","programs bounded; the engine is ideal (E01 decides the real one)")
n("S02","GateKeeper: every sequence of gate insertions; each gate's level against its operands' levels, each handed out once","")
n("S03","allocators and WireKeeper: every history of allocate, read, write, free; reference map model","std::vector/unordered_map compiled from libstdc++")
n("S04","NetworkPlaintextScheduler at two symbolic parties over the real in-memory link, both threads explored","")
n("E01","SecretShareEngine at both parties; tuples and share splits arbitrary subject to their relation; reconstructed results against the plaintext function","tuple sources replaced by arbitrary correct tuples (E04 decides the real ones)")
n("E02","opening through engine and schedulers; the designated party gets the value, the other party's view cannot decide it","")
n("E03","with the rest of the world arbitrary, every sent value is looked at as a function of the fresh randomness: changing one mask changes one sent value by the same amount, and no mask serves two values","passive view of messages; computational security of the PRG is assumed")
n("E04","tuple generators of both parties over ideal correlated transfers, AES an arbitrary function","cipher arbitrary (E07 decides AES)")
n("E05","base transfer over an abstract group; extension of base transfers, single and multi point transfers, the linear matrix and the buffered generator, both parties: received block = sent block xor choice times correlation, for every place","group is Z/2^64; hash and cipher arbitrary; rand() a fixed sequence; production parameters (millions of blocks) outside")
n("E06","both parties, arbitrary choices and messages over ideal random transfers","cipher arbitrary")
n("E07","AES-NI intrinsics executed bit by bit against a table-free FIPS-197 reference; proof cut at round boundaries","key expansion and 10 rounds for every key and block")
n("E08","output for every sequence of read sizes against one long read, refilling thread included","")
n("E09","AsyncBuffer with the filling thread as explored schedule; history of gets against the sequence","preemptions bounded; a generator that throws is outside")
n("E10","bit matrix, block, masking and big-number helpers against direct definitions","")
n("N01","typed send/receive for every type, sizes and contents; byte-stream reference","socket agents need a peer and OpenSSL and are outside")
n("N02","in-memory link: all schedules within the preemption bound, two threads per direction","preemptions bounded")
n("N03","engine link layer for every partner share; both directions","")
n("M01","AES circuit on the plaintext scheduler for every key and block, cut-point proof round by round; over MPC with the last round key symbolic","MPC entry: earlier round keys fixed")
n("M02","permuters at both parties for every permutation of small sizes, plaintext network and real engine","sizes over secret shares start at 1")
n("M03","shufflers at both parties; the result is the permutation the parties' seeds describe, shares agree","PRG arbitrary stream")
n("M04","compactors for every labelling; multiset and labels of the result","")
n("M05","write-only ORAMs, linear and tree, every index and value; array reference","tree memory with arbitrary cipher only for 2-bit integers; one write at a time; dummies only in range")
n("M06","single-point arrays of both parties: agree everywhere except at the index","long arrays use a fixed cipher; DummySinglePointArrayGenerator (insecure placeholder) only in range")
n("M07","filters against comparisons; codes compared pairwise with equality of combinations; decode directly and after saving","numbers in keys are case-split over one- and two-digit values; hash depends on length only; boost text archive and file modelled; combinations have at least one value")
n("M08","Intp of all small widths and 31/32/63/64 against 128-bit arithmetic","")
n("M09","adapters and data conversions against plain definitions","")
n("M10","each role against an arbitrary peer: equal seeds or an exception","digest an arbitrary function")
n("M11","matrix multiplication of both parties over ideal random transfers; fixed-point mapping with a symbolic soft float (engine/fp.cpp)","arithmetic through the separately proven NumberMapper; PRG arbitrary function")
n("M12","CMAC and S2V against RFC 4493/5297 with the cipher an arbitrary function","doubling on little-endian layout as the code defines it")
n("U01","processors of both parties: opened rows equal the rows at the common positions in the agreed order","shuffle ideal (M03), MAC constant and key fixed for the data entries")
n("U02","encryption and decryption of both parties for every row, width and index","cipher and CMAC arbitrary functions")
n("U03","columns and row structures: bytes against a reference layout, secret values recovered","")
n("U04","splits into shards: nothing lost, nothing twice, order kept; results and keys to files and back","boost archive and file storage modelled")
n("I01","BufferedReader over a source that returns blocks of any length; bytes and lines","a source that returns 0 bytes before its end is outside")
n("I02","BufferedWriter over a sink that takes everything, takes part, refuses or throws at any write","chunk size 0 outside")
n("I03","real readers, uploaders, managers and buffered streams over an in-memory cloud with failing requests; object and request log compared","AWS and Google SDKs modelled (bodies are rewound on retry, readsome returns all that is left); default chunk sizes (5 MB, 1 GiB) not executed")
n("I04","every supported spelling with symbolic bucket, region and key characters against a reference split","folly::Uri and RE2 modelled; ASCII, keys without ? and #")
n("I05","splitByComma for every line up to the bound against a reference","")
n("I06","LocalFileManager, local reader/writer and FileIOWrappers over in-memory files, full devices included","file system and streams modelled; binary mode")
n("X01","billionaire game and AsciiString on the plaintext scheduler against C++ arithmetic and strings","amounts in windows of 7 bits; millionaire (emp-sh2pc absent) and the edit-distance app (folly json, 15x15 circuit) outside")
n("X02","map/reduce/add/xor helpers and MetricCollector against definitions","")
