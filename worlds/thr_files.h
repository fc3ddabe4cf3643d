#pragma once
#include "io_all.h"
// What a thread does with files of trees; the tree is constant and shared.
void threadTrees(int thread, const il::MapArray<il::String, il::Dynamic>& shared);
// Writes the files that all threads only read.
void threadSharedFiles(const il::MapArray<il::String, il::Dynamic>& shared);
