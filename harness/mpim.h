#pragma once
extern "C" { extern int mpim_size, mpim_eager; extern long mpim_calls; void mpim_init(int n, int eager); void mpim_finish(); }
