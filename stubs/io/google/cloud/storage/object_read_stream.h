#include "gcs_sim.h"
