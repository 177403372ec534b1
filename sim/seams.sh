#!/bin/bash
# Fails if the simulator binary imports a file-system, clock or randomness call it does not own.
# (The C library's own calls, made through the pointers dlsym returns, are the simulator's.)
bad=$(nm -D --undefined-only "$1" | awk '{print $2}' | sed 's/@.*//' | grep -xE \
 'open(at)?(64)?|creat(64)?|fopen(64)?|stat(64|x)?|lstat(64)?|fstat(64)?|fstatat(64)?|__(l|f)?xstat(64)?|access|faccessat|read(v|link|linkat|dir|dir64|dir64_r)?|pread(64|v|v64)?|write(v)?|pwrite(64|v|v64)?|close(dir)?|opendir|fdopendir|dirfd|realpath|getcwd|chdir|fchdir|rename(at|at2)?|unlink(at)?|rmdir|mkdir(at)?|link(at)?|symlink(at)?|f?truncate(64)?|fallocate(64)?|posix_fallocate(64)?|f(data)?sync|sync(fs)?|f?chmod(at)?|f?chown(at)?|lchown|utimensat|futimens|utimes|lseek(64)?|dup3?|fcntl(64)?|flock|copy_file_range|sendfile(64)?|splice|clock_gettime|gettimeofday|time|nanosleep|clock_nanosleep|usleep|sleep|getrandom|getentropy|mkstemp(64)?|mkdtemp')
if [ -n "$bad" ]; then
    echo "calls that escape the simulator: $bad" >&2
    exit 1
fi
