// Stand-in for the iir1 library, which is not installed here: the tools only need it to exist.
#pragma once
