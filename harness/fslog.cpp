// Interposes the calls libstdc++'s file streams make, and records them (open-for-writing, write,
// close, rename, unlink) while fslog_on is set, with the size on disk after the call.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <map>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <sys/stat.h>

extern "C" { int fslog_on = 0; }
static FILE* LOG; static std::string ROOT, SC;
static std::map<int, std::string>& fds(){ static std::map<int, std::string> m; return m; }
extern "C" void fslog_set(FILE* f, const char* root, const char* sc){ LOG = f; ROOT = std::string(root) + "/run/"; SC = sc; }
std::string (*fslog_extra)() = nullptr;

static bool under(const std::string& p){ return p.rfind(ROOT, 0) == 0; }
static void rec(const char* op, const std::string& path, long n){
    struct stat sb; long size = stat(path.c_str(), &sb) == 0 ? (long)sb.st_size : -1;
    fprintf(LOG, "{\"ev\":\"fs\",\"sc\":\"%s\",\"op\":\"%s\",\"file\":\"%s\",\"n\":%ld,\"size\":%ld", SC.c_str(), op, path.substr(ROOT.size()).c_str(), n, size);
    if (fslog_extra) fprintf(LOG, "%s", fslog_extra().c_str());
    fprintf(LOG, "}\n");
}
template<class F> static F real(const char* n){ return (F)dlsym(RTLD_NEXT, n); }

extern "C" FILE* fopen64(const char* p, const char* m){
    static auto f = real<FILE*(*)(const char*, const char*)>("fopen64");
    FILE* h = f(p, m);
    if (fslog_on && h && strpbrk(m, "wa+") && under(p)){ int o = fslog_on; fslog_on = 0; fds()[fileno(h)] = p; rec("open", p, 0); fslog_on = o; }
    return h;
}
extern "C" FILE* fopen(const char* p, const char* m){ return fopen64(p, m); }
static void doopen(int fd, const char* p, int fl){
    if (fslog_on && fd >= 0 && (fl & (O_WRONLY|O_RDWR)) && under(p)){ int o = fslog_on; fslog_on = 0; fds()[fd] = p; rec("open", p, 0); fslog_on = o; }
}
extern "C" int open(const char* p, int fl, ...){
    static auto f = real<int(*)(const char*, int, ...)>("open");
    va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a);
    int fd = f(p, fl, md); doopen(fd, p, fl); return fd;
}
extern "C" int open64(const char* p, int fl, ...){
    static auto f = real<int(*)(const char*, int, ...)>("open64");
    va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a);
    int fd = f(p, fl, md); doopen(fd, p, fl); return fd;
}
extern "C" ssize_t write(int fd, const void* b, size_t n){
    static auto f = real<ssize_t(*)(int, const void*, size_t)>("write");
    ssize_t r = f(fd, b, n);
    if (fslog_on){ auto it = fds().find(fd); if (it != fds().end()){ int o = fslog_on; fslog_on = 0; rec("write", it->second, r); fslog_on = o; } }
    return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c){
    static auto f = real<ssize_t(*)(int, const struct iovec*, int)>("writev");
    ssize_t r = f(fd, v, c);
    if (fslog_on){ auto it = fds().find(fd); if (it != fds().end()){ int o = fslog_on; fslog_on = 0; rec("write", it->second, r); fslog_on = o; } }
    return r;
}
extern "C" size_t fwrite(const void* b, size_t s, size_t n, FILE* h){
    static auto f = real<size_t(*)(const void*, size_t, size_t, FILE*)>("fwrite");
    size_t r = f(b, s, n, h);
    if (fslog_on){ auto it = fds().find(fileno(h)); if (it != fds().end()){ int o = fslog_on; fslog_on = 0; rec("write", it->second, r); fslog_on = o; } }
    return r;
}
extern "C" int fclose(FILE* h){
    static auto f = real<int(*)(FILE*)>("fclose");
    int fd = fileno(h); std::string p;
    if (fslog_on){ auto it = fds().find(fd); if (it != fds().end()){ p = it->second; fds().erase(it); } }
    int r = f(h);
    if (!p.empty()){ int o = fslog_on; fslog_on = 0; rec("close", p, 0); fslog_on = o; }
    return r;
}
extern "C" int rename(const char* a, const char* b){
    static auto f = real<int(*)(const char*, const char*)>("rename");
    int r = f(a, b);
    if (fslog_on && r == 0 && under(b)){ int o = fslog_on; fslog_on = 0;
rec("rename", b, 0); fslog_on = o; }
    return r;
}
extern "C" int unlink(const char* p){
    static auto f = real<int(*)(const char*)>("unlink");
    int r = f(p);
    if (fslog_on && r == 0 && under(p)){ int o = fslog_on; fslog_on = 0; rec("unlink", p, 0); fslog_on = o; }
    return r;
}
extern "C" int remove(const char* p){
    static auto f = real<int(*)(const char*)>("remove");
    int r = f(p);
    if (fslog_on && r == 0 && under(p)){ int o = fslog_on; fslog_on = 0; rec("unlink", p, 0); fslog_on = o; }
    return r;
}
