#include "amsym.h"
#include <stdlib.h>
#include <string.h>
#include <type_traits>
#include <amtl/os/am-shared-library.h>
// The system loader: hands out handles or refuses, and keeps the books.
static int gOpened, gClosed, gLookups;
static bool gRefuse, gErrorRead;
static char gMsg[700];
static int gMsgLen;
static void* gHandle[3];
static bool gIsOpen[3];
static const char* gPath;
static const char* gSym;
static void* gAddr;
extern "C" void* __wrap_dlopen(const char* p, int flags) {
    CHECKM(p && !strcmp(p, gPath), "the loader is given the path");
    CHECKM((flags & 3) != 0, "the loader is told when to bind");
    gErrorRead = false;
    if (gRefuse) return nullptr;
    CHECK(gOpened < 3);
    gIsOpen[gOpened] = true;
    return gHandle[gOpened++];
}
extern "C" int __wrap_dlclose(void* h) {
    for (int i = 0; i < gOpened; i++) if (gHandle[i] == h && gIsOpen[i]) { gIsOpen[i] = false; gClosed++; return 0; }
    CHECKM(false, "only a handle that is open is closed");
    return -1;
}
extern "C" char* __wrap_dlerror() {
    if (gErrorRead || !gRefuse) return nullptr;      // the message can be had once
    gErrorRead = true;
    return gMsg;
}
static bool gActive;           // the native driver finds the entry with dlsym before the harness starts
extern "C" void* __real_dlsym(void*, const char*);
extern "C" void* __wrap_dlsym(void* h, const char* s) {
    if (!gActive) return __real_dlsym(h, s);
    bool open = false;
    for (int i = 0; i < gOpened; i++) open |= gHandle[i] == h && gIsOpen[i];
    CHECKM(open, "lookups pass an open handle");
    CHECKM(s == gSym || !strcmp(s, gSym), "lookups pass the symbol through");
    gLookups++;
    return gAddr;
}
static void start() {
    gActive = true;
    gOpened = gClosed = gLookups = 0;
    gRefuse = false;
    for (int i = 0; i < 3; i++) {
        gHandle[i] = (void*)amsym_any<uintptr_t>("handle");
        amsym_assume(gHandle[i] != nullptr);
        for (int j = 0; j < i; j++) amsym_assume(gHandle[i] != gHandle[j]);
        gIsOpen[i] = false;
    }
}
static char gName[4];          // an arbitrary symbol
static void anyName(char* b, int max) {
    int n = amsym_choice(max + 1, "name length");
    for (int i = 0; i < n; i++) { b[i] = amsym_any<char>("name"); amsym_assume(b[i] != 0); }
    b[n] = 0;
}
static void anyMessage(int max) {
    gMsgLen = amsym_choice(max + 1, "message length");
    for (int i = 0; i < gMsgLen; i++) { gMsg[i] = amsym_any<char>("message"); amsym_assume(gMsg[i] != 0); }
    gMsg[gMsgLen] = 0;
}
ENTRY(refused) {
    start();
    anyMessage((int)amsym_param("message", 5));
    gRefuse = true;
    gPath = "./lib.so";
    int size = amsym_choice((int)amsym_param("message", 5) + 3, "size");
    amsym_mark_heap();
    {
        if (amsym_bool("with buffer")) {
            char* b = (char*)malloc(size + 2);
            memset(b, 'Z', size + 2);
            ke::RefPtr<ke::SharedLib> lib = ke::SharedLib::Open(gPath, b + 1, size);
            CHECKM(!lib, "null is returned when the loader refuses");
            if (size) {
                int n = gMsgLen < size ? gMsgLen : size - 1;
                for (int i = 0; i < n; i++) CHECKM(b[1 + i] == gMsg[i], "the loader's message is stored");
                CHECKM(b[1 + n] == 0, "the message is terminated");
                if (n < gMsgLen) COVER("truncated"); else COVER("whole");
            }
            CHECKM(b[0] == 'Z' && b[size + 1] == 'Z', "nothing is written outside the caller's buffer");
            free(b);
        } else {
            ke::RefPtr<ke::SharedLib> lib = amsym_bool("size only") ? ke::SharedLib::Open(gPath, nullptr, size) : ke::SharedLib::Open(gPath);
            CHECKM(!lib, "null is returned when the loader refuses");
            COVER("no buffer");
        }
    }
    CHECKM(gClosed == 0 && gOpened == 0, "nothing was opened and nothing is closed");
    amsym_check_leaks();
}
// Longer messages and buffers.
ENTRY(refused_large) {
    static const int kMessage[] = {0, 3, 127, 128, 255, 256, 300, 511, 512, 690};
    static const size_t kSize[] = {127, 128, 255, 256, 257, 691, 1024, 65535, 65536, 65537, 70000, 131072};
    start();
    gMsgLen = kMessage[amsym_choice(10, "message length")];
    for (int i = 0; i < gMsgLen; i++) gMsg[i] = (char)('a' + i % 26);
    if (gMsgLen) {
        gMsg[gMsgLen - 1] = amsym_any<char>("last");
        amsym_assume(gMsg[gMsgLen - 1] != 0);
    }
    gMsg[gMsgLen] = 0;
    gRefuse = true;
    gPath = "./lib.so";
    size_t size = kSize[amsym_choice(12, "size")];
    amsym_mark_heap();
    {
        char* b = (char*)malloc(size + 1);
        memset(b, 'Z', size + 1);
        ke::RefPtr<ke::SharedLib> lib = ke::SharedLib::Open(gPath, b, size);
        CHECKM(!lib, "null is returned when the loader refuses");
        size_t n = (size_t)gMsgLen < size ? gMsgLen : size - 1;
        CHECKM(memcmp(b, gMsg, n) == 0, "the loader's message is stored");
        CHECKM(b[n] == 0, "the message is terminated");
        CHECKM(b[size] == 'Z', "nothing is written outside the caller's buffer");
        free(b);
    }
    CHECKM(gClosed == 0 && gOpened == 0, "nothing was opened and nothing is closed");
    amsym_check_leaks();
    COVER("end");
}
// Histories of opening, sharing, looking up and dropping.
ENTRY(history) {
    start();
    gPath = "x";
    strcpy(gName, "sym");
    char buf[4] = {'Z', 'Z', 'Z', 'Z'};
    amsym_mark_heap();
    {
        ke::RefPtr<ke::SharedLib> slot[2];
        int owner[2] = {-1, -1};       // which handle each slot holds
        for (int op = 0; op < (int)amsym_param("ops", 4); op++) {
            int i = amsym_choice(2, "slot");
            switch (amsym_choice(5, "op")) {
            case 0: {
                if (gOpened == 3) { COVER("full"); break; }
                int k = gOpened;
                slot[i] = amsym_bool("with buffer") ? ke::SharedLib::Open(gPath, buf, 3) : ke::SharedLib::Open(gPath);
                CHECKM(!!slot[i], "a reference is returned when the loader succeeds");
                CHECKM(slot[i]->valid() && *slot[i], "an opened library is valid");
                CHECKM(gOpened == k + 1, "the library is opened once");
                owner[i] = k;
                COVER("open");
                break;
            }
            case 1: slot[i] = slot[!i]; owner[i] = owner[!i]; COVER("share"); break;
            case 2: slot[i] = nullptr; owner[i] = -1; COVER("drop"); break;
            case 3:
                if (!slot[i]) break;
                gSym = gName;
                gAddr = (void*)amsym_any<uintptr_t>("address");
                if (amsym_bool("typed")) { typedef int (*Fn)(int); CHECKM(slot[i]->get<Fn>(gSym) == (Fn)gAddr, "a lookup returns the loader's answer"); }
                else CHECKM(slot[i]->lookup(gSym) == gAddr, "a lookup returns the loader's answer");
                COVER("lookup");
                break;
            default: { ke::RefPtr<ke::SharedLib> t(std::move(slot[i])); slot[i] = t; COVER("move"); break; }
            }
            for (int h = 0; h < gOpened; h++) CHECKM(gIsOpen[h] == (owner[0] == h || owner[1] == h), "a handle is closed exactly when the last reference goes");
        }
    }
    CHECKM(gClosed == gOpened, "every handle is closed exactly once");
    CHECK(buf[0] == 'Z' && buf[3] == 'Z');
    amsym_check_leaks();
    COVER("end");
}
// Used directly rather than through a reference, and from a handle that is already open.
ENTRY(direct) {
    start();
    gPath = "y";
    gMsg[0] = 0;
    {
        ke::SharedLib none;
        CHECKM(!none.valid() && !none, "an empty library is not valid");
        gRefuse = amsym_bool("refuse");
        {
            ke::SharedLib lib(gPath);
            CHECKM(lib.valid() == !gRefuse && !!lib == !gRefuse, "a library is valid exactly when the loader succeeds");
            if (!gRefuse) { gSym = ""; gAddr = (void*)amsym_any<uintptr_t>("address"); CHECK(lib.lookup("") == gAddr); COVER("opened"); } else COVER("refused");
        }
        CHECKM(gClosed == gOpened, "the handle is closed when the library goes");
        gHandle[gOpened] = gHandle[2];
        gIsOpen[gOpened] = true;
        void* h = gHandle[gOpened++];
        { ke::SharedLib adopt(h); CHECK(adopt.valid()); }
        CHECKM(gClosed == gOpened, "a handle that was handed over is closed");
    }
    CHECKM(gClosed == gOpened, "nothing is closed twice");
    // A copy would close the handle again.
    CHECKM(!std::is_copy_constructible<ke::SharedLib>::value && !std::is_copy_assignable<ke::SharedLib>::value, "libraries cannot be copied");
}
// Any path and any symbol go through to the loader as they are.
ENTRY(names) {
    start();
    static char path[4];
    anyName(path, 3);
    anyName(gName, 3);
    gPath = path;
    gSym = gName;
    gMsg[0] = 0;
    gRefuse = amsym_bool("refuse");
    {
        ke::RefPtr<ke::SharedLib> lib = ke::SharedLib::Open(path);
        CHECKM(!!lib == !gRefuse, "a reference is returned exactly when the loader succeeds");
        if (lib) {
            gAddr = (void*)amsym_any<uintptr_t>("address");
            CHECKM(lib->lookup(gName) == gAddr, "a lookup returns the loader's answer");
            CHECKM(lib->get<char*>(gName) == gAddr, "a lookup returns the loader's answer");
            COVER("opened");
        } else COVER("refused");
    }
    CHECKM(gClosed == gOpened, "every handle is closed exactly once");
}
// Long messages, paths and symbols.
ENTRY(long_texts) {
    start();
    static const int kLen[] = {60, 127, 128, 255, 256, 257, 600};
    gMsgLen = kLen[amsym_choice(7, "message length")];
    for (int i = 0; i < gMsgLen; i++) gMsg[i] = (char)('a' + i % 26);
    gMsg[gMsgLen] = 0;
    static char path[600], sym[600];
    int n = amsym_choice(3, "name length");
    n = n == 0 ? 40 : n == 1 ? 258 : 590;
    memset(path, 'p', n);
    memset(sym, 's', n);
    path[n] = sym[n] = 0;
    path[n - 1] = amsym_any<char>("path");
    sym[n - 1] = amsym_any<char>("symbol");
    amsym_assume(path[n - 1] != 0 && sym[n - 1] != 0);
    gPath = path;
    gSym = sym;
    gRefuse = amsym_bool("refuse");
    int size = kLen[amsym_choice(7, "size")];
    amsym_mark_heap();
    {
        char* b = (char*)malloc(size + 2);
        memset(b, 'Z', size + 2);
        ke::RefPtr<ke::SharedLib> lib = ke::SharedLib::Open(path, b + 1, size);
        CHECKM(!!lib == !gRefuse, "a reference is returned exactly when the loader succeeds");
        if (lib) {
            gAddr = (void*)amsym_any<uintptr_t>("address");
            CHECKM(lib->lookup(sym) == gAddr, "a lookup returns the loader's answer");
            COVER("opened");
        } else {
            int k = gMsgLen < size ? gMsgLen : size - 1;
            CHECKM(!memcmp(b + 1, gMsg, k) && b[1 + k] == 0, "the loader's message is stored and terminated");
            COVER("refused");
        }
        CHECKM(b[0] == 'Z' && b[size + 1] == 'Z', "nothing is written outside the caller's buffer");
        free(b);
    }
    CHECKM(gClosed == gOpened, "every handle is closed exactly once");
    amsym_check_leaks();
}
