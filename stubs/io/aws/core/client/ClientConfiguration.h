#include "aws_sim.h"
