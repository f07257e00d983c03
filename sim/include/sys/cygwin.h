#pragma once
#define CCP_POSIX_TO_WIN_A 0
#define CCP_POSIX_TO_WIN_W 1
#define CCP_WIN_A_TO_POSIX 2
#define CCP_WIN_W_TO_POSIX 3
#define CCP_ABSOLUTE 0
#define CCP_RELATIVE 0x100
#define CW_SYNC_WINENV 33
