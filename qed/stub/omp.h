#pragma once // clang here has no OpenMP runtime; the library uses pragmas only
