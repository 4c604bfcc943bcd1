/* forced into every real source file: calls that reach the outside world go
 * to the harness's model of it instead (both for CBMC and for the replay). */
#pragma once
#include <time.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <poll.h>
#include <netdb.h>
time_t vp_time(time_t *);
int vp_gettimeofday(struct timeval *, void *);
struct tm *vp_localtime(const time_t *);
size_t vp_strftime(char *, size_t, const char *, const struct tm *);
int vp_getpeername(int, struct sockaddr *, socklen_t *);
int vp_open(const char *, int, ...);
ssize_t vp_read(int, void *, size_t);
ssize_t vp_write(int, const void *, size_t);
int vp_close(int);
int vp_fsync(int);
int vp_rename(const char *, const char *);
int vp_unlink(const char *);
FILE *vp_fopen(const char *, const char *);
char *vp_fgets(char *, int, FILE *);
int vp_fclose(FILE *);
void vp_exit(int) __attribute__((noreturn));
int vp_execve(const char *, char *const [], char *const []);
int vp_fork(void);
int vp_getnameinfo(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
struct iovec;
struct tm *vp_localtime_r(const time_t *, struct tm *);
char *vp_ctime(const time_t *);
char *vp_ctime_r(const time_t *, char *);
int vp_clock_gettime(clockid_t, struct timespec *);
int vp_fgetc(FILE *);
size_t vp_fread(void *, size_t, size_t, FILE *);
int vp_fdatasync(int);
int vp_access(const char *, int);
ssize_t vp_writev(int, const struct iovec *, int);
#include <sys/uio.h>
#include <sys/stat.h>
ssize_t vp_getline(char **, size_t *, FILE *);
int vp_feof(FILE *);
int vp_ferror(FILE *);
off_t vp_lseek(int, off_t, int);
int vp_ftruncate(int, off_t);
int vp_fstat_(int, struct stat *);
int vp_stat_(const char *, struct stat *);
int vp_fileno(FILE *);
int vp_mkstemp(char *);
ssize_t vp_pread(int, void *, size_t, off_t);
ssize_t vp_pwrite(int, const void *, size_t, off_t);
int vp_fchmod(int, mode_t);
struct tm *vp_gmtime(const time_t *);
#define getline vp_getline
#undef feof
#define feof vp_feof
#undef ferror
#define ferror vp_ferror
#define lseek vp_lseek
#define ftruncate vp_ftruncate
#define fstat vp_fstat_
#undef fileno
#define fileno vp_fileno
#define mkstemp vp_mkstemp
#define pread vp_pread
#define pwrite vp_pwrite
#define fchmod vp_fchmod
#define gmtime vp_gmtime
#define stat(a, b) vp_stat_(a, b)
#define localtime_r vp_localtime_r
#define ctime vp_ctime
#define ctime_r vp_ctime_r
#define clock_gettime vp_clock_gettime
#define fgetc vp_fgetc
#undef getc
#define getc vp_fgetc
#define fread vp_fread
#define fdatasync vp_fdatasync
#define access vp_access
#define writev vp_writev
#define getnameinfo vp_getnameinfo
#define fork vp_fork
#define time vp_time
#define gettimeofday vp_gettimeofday
#define localtime vp_localtime
#define strftime vp_strftime
#define getpeername vp_getpeername
#define open vp_open
#define read vp_read
#define write vp_write
#define close vp_close
#define fsync vp_fsync
#define rename vp_rename
#define unlink vp_unlink
#define fopen vp_fopen
#define fgets vp_fgets
#define fclose vp_fclose
#define exit vp_exit
#define execve vp_execve
#ifdef VP_PKT      /* the network layer */
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <arpa/inet.h>
int vp_accept(int, struct sockaddr *, socklen_t *);
int vp_poll(struct pollfd *, nfds_t, int);
int vp_setsockopt(int, int, int, const void *, socklen_t);
int vp_fcntl(int, int, ...);
int vp_ioctl(int, unsigned long, ...);
int vp_socket(int, int, int);
int vp_bind(int, const struct sockaddr *, socklen_t);
int vp_listen(int, int);
int vp_shutdown(int, int);
int vp_getsockname(int, struct sockaddr *, socklen_t *);
int vp_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void vp_freeaddrinfo(struct addrinfo *);
const char *vp_gai_strerror(int);
ssize_t vp_recv(int, void *, size_t, int);
ssize_t vp_send_(int, const void *, size_t, int);
#define accept vp_accept
#define poll vp_poll
#define setsockopt vp_setsockopt
#define fcntl vp_fcntl
#define ioctl vp_ioctl
#define socket vp_socket
#define bind vp_bind
#define listen vp_listen
#define shutdown vp_shutdown
#define getsockname vp_getsockname
#define getaddrinfo vp_getaddrinfo
#define freeaddrinfo vp_freeaddrinfo
#define gai_strerror vp_gai_strerror
#define recv vp_recv
#define send vp_send_
#define signal(a, b) ((void)0)
#endif
