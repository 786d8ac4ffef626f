// Observes (and disturbs) the system calls a traced child makes between two marks.
// The child calls fr_traceme(), then fr_mark() before and after the code that is watched.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

enum { K_OTHER, K_OPEN, K_WRITE, K_SYNC, K_CLOSE, K_RENAME, K_UNLINK, K_TRUNC, K_LINK, K_MAP };
enum { A_NONE, A_FAIL, A_FAIL_ALWAYS, A_SHORT, A_SHORT_THEN_FAIL, A_KILL_BEFORE, A_KILL_AFTER, A_DO_AND_FAIL };
#define MARK_FD -4242
#define NFD 4096

typedef struct {
    int32_t kind, nr, fd, flags;
    int64_t ret, size;
    char path[512], path2[512];
} Event;

typedef void (*Callback)(int index, Event *ev, int phase);

void fr_traceme(void) {
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
}
void fr_mark(void) { syscall(SYS_fcntl, MARK_FD, 0, 0); }

static int readstr(pid_t pid, uint64_t addr, char *buf, size_t n) {
    size_t i = 0;
    while(i + 1 < n) {
        struct iovec l = {buf + i, 1}, r = {(void *)(addr + i), 1};
        errno = 0;
        if(process_vm_readv(pid, &l, 1, &r, 1, 0) != 1) {
            // fall back on PEEKDATA
            long w = ptrace(PTRACE_PEEKDATA, pid, (void *)((addr + i) & ~7ul), 0);
            if(errno)
                break;
            buf[i] = ((char *)&w)[(addr + i) & 7];
        }
        if(!buf[i])
            return 0;
        ++i;
    }
    buf[i] = 0;
    return -1;
}

// Runs the child to its end.  Events at or after number `index` among the events whose kind is in `kinds` are disturbed by `action`.
// Returns the wait status; -1000 on trouble.
int fr_trace(pid_t pid, const char *dir, uint32_t kinds, int index, int action, int64_t param, Callback cb, int *n_events, int *n_disturbed, int *marks) {
    int st;
    static char fdpath[NFD][512];
    memset(fdpath, 0, sizeof fdpath);
    size_t dl = strlen(dir);
    *n_events = *n_disturbed = *marks = 0;
    int matched = 0, in_call = 0;
    Event ev;
    int watching = 0, pending_fail = 0, pending_kill = 0, is_event = 0, is_mark = 0;
    int64_t err = 0;
    if(waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st))
        return -1000;
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    int sig = 0;
    for(;;) {
        if(ptrace(PTRACE_SYSCALL, pid, 0, sig) != 0)
            return -1000;
        sig = 0;
        if(waitpid(pid, &st, 0) != pid)
            return -1000;
        if(WIFEXITED(st) || WIFSIGNALED(st))
            return st;
        if(!WIFSTOPPED(st))
            continue;
        if(WSTOPSIG(st) != (SIGTRAP | 0x80)) {
            sig = WSTOPSIG(st);
            if(sig == SIGTRAP || sig == SIGSTOP)
                sig = 0;
            continue;
        }
        struct user_regs_struct r;
        if(ptrace(PTRACE_GETREGS, pid, 0, &r) != 0)
            return -1000;
        if(!in_call) {
            in_call = 1;
            pending_fail = pending_kill = is_event = is_mark = 0;
            long nr = r.orig_rax;
            if(nr == SYS_fcntl && (int)r.rdi == MARK_FD) {
                is_mark = 1;
                continue;
            }
            memset(&ev, 0, sizeof ev);
            ev.nr = nr;
            ev.fd = -1;
            int fd = -1;
            switch(nr) {
            case SYS_open: ev.kind = K_OPEN; readstr(pid, r.rdi, ev.path, sizeof ev.path); ev.flags = r.rsi; break;
            case SYS_creat: ev.kind = K_OPEN; readstr(pid, r.rdi, ev.path, sizeof ev.path); ev.flags = O_CREAT | O_TRUNC | O_WRONLY; break;
            case SYS_openat: ev.kind = K_OPEN; readstr(pid, r.rsi, ev.path, sizeof ev.path); ev.flags = r.rdx; break;
            case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_sendfile: case SYS_copy_file_range:
                ev.kind = K_WRITE; fd = nr == SYS_copy_file_range ? r.rdx : r.rdi; ev.size = r.rdx; break;
            case SYS_fsync: case SYS_fdatasync: case SYS_syncfs: case SYS_sync_file_range: ev.kind = K_SYNC; fd = r.rdi; break;
            case SYS_close: ev.kind = K_CLOSE; fd = r.rdi; break;
            case SYS_rename: ev.kind = K_RENAME; readstr(pid, r.rdi, ev.path, sizeof ev.path); readstr(pid, r.rsi, ev.path2, sizeof ev.path2); break;
            case SYS_renameat: case SYS_renameat2: ev.kind = K_RENAME; readstr(pid, r.rsi, ev.path, sizeof ev.path); readstr(pid, r.r10, ev.path2, sizeof ev.path2); break;
            case SYS_link: ev.kind = K_LINK; readstr(pid, r.rdi, ev.path, sizeof ev.path); readstr(pid, r.rsi, ev.path2, sizeof ev.path2); break;
            case SYS_linkat: ev.kind = K_LINK; readstr(pid, r.rsi, ev.path, sizeof ev.path); readstr(pid, r.r10, ev.path2, sizeof ev.path2); break;
            case SYS_unlink: ev.kind = K_UNLINK; readstr(pid, r.rdi, ev.path, sizeof ev.path); break;
            case SYS_unlinkat: ev.kind = K_UNLINK; readstr(pid, r.rsi, ev.path, sizeof ev.path); break;
            case SYS_truncate: ev.kind = K_TRUNC; readstr(pid, r.rdi, ev.path, sizeof ev.path); break;
            case SYS_ftruncate: case SYS_fallocate: ev.kind = K_TRUNC; fd = r.rdi; break;
            case SYS_mmap: ev.kind = K_MAP; fd = (int)r.r8; break;
            case SYS_lseek: case SYS_fstat: case SYS_newfstatat: ev.kind = K_OTHER; break;
            default: ev.kind = -1;
            }
            if(fd >= 0 && fd < NFD) {
                ev.fd = fd;
                if(fdpath[fd][0])
                    strcpy(ev.path, fdpath[fd]);
                else
                    ev.kind = -1;
            } else if(ev.path[0] == 0) {
                ev.kind = -1;
            }
            if(!watching || ev.kind < 0 || (strncmp(ev.path, dir, dl) != 0 && strncmp(ev.path2, dir, dl) != 0))
                continue;
            is_event = 1;
            if((kinds >> ev.kind) & 1) {
                int m = matched++;
                int hit = m == index || (m > index && (action == A_FAIL_ALWAYS || (action == A_SHORT_THEN_FAIL && ev.kind == K_WRITE)));
                if(hit) {
                    ++*n_disturbed;
                    if(m == index && (action == A_SHORT || action == A_SHORT_THEN_FAIL)) {
                        if(ev.size > 1) {
                            r.rdx = 1 + (uint64_t)param % (ev.size - 1);
                            ev.size = r.rdx;
                            ptrace(PTRACE_SETREGS, pid, 0, &r);
                        }
                    } else if(action == A_KILL_BEFORE) {
                        kill(pid, SIGKILL);
                        waitpid(pid, &st, 0);
                        return st;
                    } else if(action == A_KILL_AFTER) {
                        pending_kill = 1;
                    } else if(action == A_DO_AND_FAIL || ev.kind == K_CLOSE) {
                        pending_fail = 1;
                        err = action == A_SHORT_THEN_FAIL ? ENOSPC : param;
                    } else {
                        pending_fail = 1;
                        err = action == A_SHORT_THEN_FAIL ? ENOSPC : param;
                        r.orig_rax = -1;
                        ptrace(PTRACE_SETREGS, pid, 0, &r);
                    }
                }
            }
            if(cb)
                cb(*n_events, &ev, 0);
        } else {
            in_call = 0;
            if(is_mark) {
                watching = !watching;
                ++*marks;
                continue;
            }
            if(pending_fail) {
                r.rax = -err;
                ptrace(PTRACE_SETREGS, pid, 0, &r);
            }
            ev.ret = (int64_t)r.rax;
            if(ev.kind == K_OPEN && ev.ret >= 0 && ev.ret < NFD)
                strcpy(fdpath[ev.ret], ev.path);
            if(ev.kind == K_CLOSE && ev.fd >= 0 && ev.fd < NFD)
                fdpath[ev.fd][0] = 0;
            if(pending_kill) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                return st;
            }
            if(is_event) {
                if(cb)
                    cb(*n_events, &ev, 1);
                ++*n_events;
            }
        }
    }
}
