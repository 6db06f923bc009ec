// A demonstration is one function: returns 0 when the behaviour is right.
#pragma once
#include "h.h"
#include <cerrno>
#include <cstdio>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/xattr.h>
#include <thread>
using namespace h;
int demo();
std::string scratch();
#define CHECK(c)                                                                      \
    do                                                                                \
    {                                                                                 \
        if (!(c))                                                                     \
        {                                                                             \
            fprintf(stderr, "DEMO FAILED at line %d: %s (errno %d)\n", __LINE__, #c, errno); \
            return 1;                                                                 \
        }                                                                             \
    } while (0)
