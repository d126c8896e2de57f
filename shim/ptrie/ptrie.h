#include "ptrie_map.h"
