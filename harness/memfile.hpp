// A file that exists only in memory.
#pragma once
#include <string>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
struct MemFile
{
    int fd; std::string path;
    explicit MemFile(const std::string& text = "")
    {
        fd = memfd_create("instance", 0);
        if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) { perror("memfd"); exit(2); }
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    MemFile(const MemFile&) = delete;
    std::string text() const
    {
        std::string r; char b[4096]; off_t at = 0; ssize_t k;
        while ((k = pread(fd, b, sizeof b, at)) > 0) { r.append(b, size_t(k)); at += k; }
        return r;
    }
    ~MemFile() { close(fd); }
};
