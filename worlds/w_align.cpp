// Alignment of one- to four-dimensional arrays (C14).
#include "seq.h"
void world_array();
void world_nd();
void world_align() {
  if (seq::pick(2) == 0) world_array();
  else world_nd();
}
