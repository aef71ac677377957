#pragma once
#define CYGWIN_VERSION_API_MINOR 300
#define CYGWIN_VERSION_CYGWIN_CONV 181
