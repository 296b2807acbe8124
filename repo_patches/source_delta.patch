From 31531630fb93add468bad78ac513c759eebe1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 01/62] fix: buffer: leave a moved-from buffer empty and
 reusable

The defaulted move kept capacity and offsets of the source while its heap
storage was gone, so that any later use of the source dereferenced null.
---
 src/include/cppev/buffer.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index d2ff8a9..25d5765 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -49,9 +49,26 @@ public:
         return *this;
     }
 
-    buffer(buffer &&other) noexcept = default;
+    // The moved-from buffer is left empty without heap storage
+    buffer(buffer &&other) noexcept
+    : cap_(other.cap_), start_(other.start_), offset_(other.offset_),
+      buffer_(std::move(other.buffer_))
+    {
+        other.cap_ = other.start_ = other.offset_ = 0;
+    }
 
-    buffer &operator=(buffer &&other) = default;
+    buffer &operator=(buffer &&other) noexcept
+    {
+        if (&other != this)
+        {
+            cap_ = other.cap_;
+            start_ = other.start_;
+            offset_ = other.offset_;
+            buffer_ = std::move(other.buffer_);
+            other.cap_ = other.start_ = other.offset_ = 0;
+        }
+        return *this;
+    }
 
     ~buffer() = default;
 
@@ -129,7 +146,10 @@ public:
     // Clear buffer
     void clear() noexcept
     {
-        memset(buffer_.get(), 0, cap_);
+        if (cap_)
+        {
+            memset(buffer_.get(), 0, cap_);
+        }
         start_ = 0;
         offset_ = 0;
     }
@@ -207,7 +227,10 @@ private:
             this->start_ = other.start_;
             this->offset_ = other.offset_;
             this->buffer_ = std::make_unique<char[]>(cap_);
-            memcpy(this->buffer_.get(), other.buffer_.get(), cap_);
+            if (cap_)
+            {
+                memcpy(this->buffer_.get(), other.buffer_.get(), cap_);
+            }
         }
     }
 };
-- 
2.43.0


From 8df972ad844e2f143dbbca108f8ea1484bb18cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 02/62] fix: strip: look at the last piece when nothing
 precedes it

With exactly one piece left the index bound wrapped around to SIZE_MAX, the
comparison loop did not run and the piece was removed whatever it was.
---
 src/lib/utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a4c507c..d68c29f 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -446,9 +446,9 @@ static std::string do_strip(const std::string &str, const std::string &chars, co
         {
             bool eq = true;
             size_t j = chars.size() - 1;
-            for (size_t i = r - 1; i > r - chars.size() - 1; --i)
+            for (size_t i = r; i > r - chars.size(); --i)
             {
-                if (str[i] != chars[j--])
+                if (str[i - 1] != chars[j--])
                 {
                     eq = false;
                     break;
-- 
2.43.0


From 97e61fa3751837eb98fb496e2d8b4457e34914b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 03/62] fix: join: accept an empty list

The reserved size wrapped around, and the exception from reserve() left a
noexcept function and ended the process.
---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index d68c29f..8385a5f 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -389,7 +389,10 @@ std::string join(const std::vector<std::string> &str_arr, const std::string &sep
     {
         size += str_arr[i].size();
     }
-    size += sep.size() * (str_arr.size() - 1);
+    if (!str_arr.empty())
+    {
+        size += sep.size() * (str_arr.size() - 1);
+    }
     ret.reserve(size);
     for (size_t i = 0; i < str_arr.size(); ++i)
     {
-- 
2.43.0


From c6acda6f77a04884edca1134729d89743bae907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 04/62] fix: gettid: do not return the parent's thread id in a
 forked child

---
 src/lib/utils.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 8385a5f..e74a290 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -312,15 +312,13 @@ bool thread_check_signal_pending(int sig)
 
 tid_t gettid() noexcept
 {
-    thread_local tid_t thr_id = 0;
-    if (thr_id == 0)
-    {
+    // Never cached, a forked child would inherit the id of its parent's thread
+    tid_t thr_id = 0;
 #ifdef __linux__
-        thr_id = syscall(SYS_gettid);
+    thr_id = syscall(SYS_gettid);
 #elif defined(__APPLE__)
-        pthread_threadid_np(0, &thr_id);
+    pthread_threadid_np(0, &thr_id);
 #endif  // __linux__
-    }
     return thr_id;
 }
 
-- 
2.43.0


From 1be29640358a16981d9a864203f3eedfdc1a4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 05/62] fix: sleep_until: make the template compile

It named a dependent type without typename and passed a duration where a time
point is needed, so that it could not be instantiated.
---
 src/include/cppev/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index ca3f9ab..15072bb 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -62,7 +62,8 @@ std::string timestamp(time_t t = -1, const char *format = nullptr);
 template <typename Clock = std::chrono::system_clock>
 void sleep_until(const std::chrono::nanoseconds &stamp)
 {
-    std::this_thread::sleep_until(std::chrono::duration_cast<Clock::duration>(stamp));
+    std::this_thread::sleep_until(typename Clock::time_point(
+        std::chrono::ceil<typename Clock::duration>(stamp)));
 }
 
 template <typename Clock = std::chrono::system_clock>
-- 
2.43.0


From 2f59de51ba219e996646bacc4314bf63f294d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 06/62] fix: timestamp: render empty and long results

strftime() returns 0 both for an empty rendering and for one of 1024 bytes or
more; both were raised as errors with a meaningless errno.
---
 src/lib/utils.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index e74a290..ee570c8 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -38,13 +38,19 @@ std::string timestamp(time_t t, const char *format)
     }
     tm s_tm;
     localtime_r(&t, &s_tm);
-    char buf[1024];
-    memset(buf, 0, 1024);
-    if (0 == strftime(buf, 1024, format, &s_tm))
+    // The leading space tells an empty rendering from a buffer that is too small
+    std::string fmt = std::string(" ") + format;
+    std::string buf(1024, '\0');
+    size_t len;
+    while (0 == (len = strftime(&buf[0], buf.size(), fmt.c_str(), &s_tm)))
     {
-        throw_system_error("strftime error");
+        if (buf.size() >= 1024 * (fmt.size() + 1))
+        {
+            throw_system_error("strftime error");
+        }
+        buf.resize(buf.size() * 2);
     }
-    return buf;
+    return buf.substr(1, len - 1);
 }
 
 int64_t least_common_multiple(int64_t p, int64_t r)
-- 
2.43.0


From 41b54ac7e512323ef277e9e756692f56c1260b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 07/62] fix: nio: move the write buffer, release the target,
 close only once

Moving filled the write buffer from the read buffer and lost the bytes waiting
to be sent, move assignment leaked the descriptor of the target, and a second
close() closed a descriptor number that may have been reused.
---
 src/include/cppev/nio.h | 8 ++++++--
 src/lib/nio.cc          | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index c1f4c88..082cc4b 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -49,7 +49,7 @@ class nio
 {
 public:
     explicit nio(int fd)
-    : fd_(fd), closed_(false)
+    : fd_(fd), closed_(false), evlp_(nullptr)
     {
         set_io_nonblock();
     }
@@ -58,6 +58,7 @@ public:
     nio &operator=(const nio &) = delete;
 
     nio(nio &&other) noexcept
+    : fd_(-1), closed_(true), evlp_(nullptr)
     {
         if (&other == this)
         {
@@ -157,10 +158,13 @@ protected:
 
     void move(nio &&other) noexcept
     {
+        // Release the descriptor that is going to be replaced
+        close();
+
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-        this->wbuffer_ = std::move(other.rbuffer_);
+        this->wbuffer_ = std::move(other.wbuffer_);
         this->evlp_ = other.evlp_;
 
         other.fd_ = -1;
diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bbecc9f..00b0ef8 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -21,7 +21,8 @@ namespace cppev
 
 void nio::close() noexcept
 {
-    if (fd_ != -1)
+    // Close only once, the descriptor may have been reused since
+    if (!closed_ && fd_ != -1)
     {
         ::close(fd_);
     }
-- 
2.43.0


From 51dc18187b515b7986cf9fd4ba70ec904cd1c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 08/62] fix: nsocktcp::shutdown: do not shut down the other
 direction too

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 00b0ef8..5c81df1 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -499,14 +499,17 @@ void nsocktcp::shutdown(shut_mode howto) noexcept
     case shut_mode::shut_rd :
     {
         ::shutdown(fd_, SHUT_RD);
+        break;
     }
     case shut_mode::shut_wr :
     {
         ::shutdown(fd_, SHUT_WR);
+        break;
     }
     case shut_mode::shut_rdwr :
     {
         ::shutdown(fd_, SHUT_RDWR);
+        break;
     }
     default: ;
     }
-- 
2.43.0


From bbcf0066d7733388122c1919aca25b8dfce913cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 09/62] fix: nsock: refuse a unix socket path that does not fit

It was cut silently, so that the socket was bound to or connected to another
path than the one asked for.
---
 src/lib/nio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 5c81df1..2843056 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -239,6 +239,10 @@ static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 static void set_path(sockaddr_storage &addr, const char *path)
 {
     sockaddr_un *ap = (sockaddr_un *)(&addr);
+    if (strlen(path) >= sizeof(ap->sun_path))
+    {
+        throw_logic_error(std::string("path too long for socket : ").append(path));
+    }
     strncpy(ap->sun_path, path, sizeof(ap->sun_path) - 1);
 }
 
-- 
2.43.0


From f0cf2be2b351ba7a57fdd1c860e1583f32a6550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 10/62] fix: nsocktcp::accept: survive aborted connections,
 keep accepted ones

A connection that its peer aborted, or an interrupted call, was raised as an
error, and any error dropped the connections accepted before it.
---
 src/lib/nio.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 2843056..15c6e73 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -636,6 +636,17 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
             {
                 break;
             }
+            else if (errno == EINTR || errno == ECONNABORTED)
+            {
+                // Not an error of the listening socket
+                --i;
+                continue;
+            }
+            else if (!sockfds.empty())
+            {
+                // Hand over what was accepted, the next call reports the error
+                break;
+            }
             else
             {
                 throw_system_error("accept error");
-- 
2.43.0


From be0a54ec13bbcf86e8235046b2c571dc737d34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 11/62] fix: nsockudp: report failed transfers and receive
 whole datagrams

A failed recvfrom() or sendto() was taken for a transfer of -1 bytes, which
corrupted the read buffer and dropped the write buffer, while an empty datagram
was raised as an error. A datagram was cut when the read buffer held earlier
data, and the destination address was not fully initialised.
---
 src/lib/nio.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 15c6e73..6d27867 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -13,6 +13,7 @@
 #include <netinet/tcp.h>
 #include <tuple>
 #include <sys/stat.h>
+#include <sys/ioctl.h>
 #include <vector>
 #include <cstdio>
 
@@ -668,9 +669,16 @@ std::tuple<std::string, int, family> nsockudp::recv()
 {
     sockaddr_storage addr;
     socklen_t len = faddr_len_.at(family_);
+    // Room for the whole datagram, or the system would cut it
+    int pending = 0;
+    if (ioctl(fd_, FIONREAD, &pending) == -1)
+    {
+        pending = 0;
+    }
+    rbuffer().resize(rbuffer().offset_ + std::max(pending, sysconfig::udp_buffer_size));
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("recvfrom error");
     }
@@ -685,11 +693,12 @@ std::tuple<std::string, int, family> nsockudp::recv()
 void nsockudp::send(const char *ip, int port)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, faddr_len_.at(family_));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
@@ -699,11 +708,12 @@ void nsockudp::send(const char *ip, int port)
 void nsockudp::send_unix(const char *path)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, SUN_LEN((sockaddr_un *)&addr));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
-- 
2.43.0


From 667dfa83347c6d86bd2bbc0da6a5623d7e5f24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 12/62] fix: get_fifos: do not leak the read end when the write
 end cannot be opened

---
 src/lib/nio.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 6d27867..6c5193a 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -778,7 +778,9 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     int fdw = open(path.c_str(), O_WRONLY | O_NONBLOCK);
     if (fdw == -1)
     {
-        throw_system_error("open error");
+        int err = errno;
+        ::close(fdr);
+        throw_system_error("open error", err);
     }
     std::vector<std::shared_ptr<nstream>> fifos =
     {
-- 
2.43.0


From 162bbb57ca02d67ba6aa2a06842cb3bb70d57961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 13/62] fix: event_loop: a closed or broken peer makes the
 descriptor ready

epoll reports EPOLLHUP/EPOLLERR alone for a pipe whose other end is gone;
no handler was called and the loop kept spinning.
---
 src/include/cppev/event_loop.h |  2 +-
 src/lib/event_loop_epoll.cc    | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 0edb3ef..f28caa5 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -132,7 +132,7 @@ private:
     // Tuple : priority, nio, callback
     std::priority_queue<std::tuple<int, std::shared_ptr<nio>, std::shared_ptr<fd_event_handler>> > fd_cbs_;
 
-    // Activate events, used for kqueue only
+    // Activate events
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 5c57d32..199787c 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -98,10 +98,12 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
         struct epoll_event ev;
         ev.data.fd = iop->fd();
         ev.events = fd_map_to_sys(ev_type);
+        std::unique_lock<std::mutex> lock(lock_);
         if (epoll_ctl(ev_fd_, EPOLL_CTL_ADD, iop->fd(), &ev) < 0)
         {
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
         }
+        fd_events_[iop->fd()] = ev_type;
     }
 }
 
@@ -130,10 +132,12 @@ void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool dea
 #endif  // CPPEV_DEBUG
     if (deactivate)
     {
+        std::unique_lock<std::mutex> lock(lock_);
         if (epoll_ctl(ev_fd_, EPOLL_CTL_DEL, iop->fd(), nullptr) < 0)
         {
             throw_system_error(std::string("epoll_ctl del error for fd ").append(std::to_string(iop->fd())));
         }
+        fd_events_.erase(iop->fd());
     }
     if (clean)
     {
@@ -155,11 +159,17 @@ void event_loop::loop_once(int timeout)
     {
         std::unique_lock<std::mutex> lock(lock_);
         int fd = evs[i].data.fd;
+        fd_event ready = fd_map_to_event(evs[i].events);
+        if (evs[i].events & (EPOLLHUP | EPOLLERR))
+        {
+            // Neither reading nor writing would block
+            ready = ready | fd_events_[fd];
+        }
         auto range = fds_.equal_range(fd);
         auto begin = range.first, end = range.second;
         while (begin != end)
         {
-            if (static_cast<bool>(std::get<3>(begin->second) & fd_map_to_event(evs[i].events)))
+            if (static_cast<bool>(std::get<3>(begin->second) & ready))
             {
 #ifdef CPPEV_DEBUG
                 log::info << "Enqueue ";
-- 
2.43.0


From 61cf148abe45c58c2c4b24112933b8812d3a1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 14/62] fix: event_loop: do not call a handler removed earlier
 in the same iteration

---
 src/lib/event_loop_epoll.cc  | 18 ++++++++++++++++++
 src/lib/event_loop_kqueue.cc | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 199787c..6e0d65b 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -197,6 +197,24 @@ void event_loop::loop_once(int timeout)
     {
         auto ev = fd_cbs_.top();
         fd_cbs_.pop();
+        {
+            // An earlier handler may have removed this one
+            std::unique_lock<std::mutex> lock(lock_);
+            bool removed = true;
+            auto range = fds_.equal_range(std::get<1>(ev)->fd());
+            for (auto iter = range.first; iter != range.second; ++iter)
+            {
+                if (std::get<2>(iter->second) == std::get<2>(ev))
+                {
+                    removed = false;
+                    break;
+                }
+            }
+            if (removed)
+            {
+                continue;
+            }
+        }
         (*std::get<2>(ev))(std::get<1>(ev));
     }
 
diff --git a/src/lib/event_loop_kqueue.cc b/src/lib/event_loop_kqueue.cc
index 809493e..8afa6db 100644
--- a/src/lib/event_loop_kqueue.cc
+++ b/src/lib/event_loop_kqueue.cc
@@ -231,6 +231,24 @@ void event_loop::loop_once(int timeout)
     {
         auto ev = fd_cbs_.top();
         fd_cbs_.pop();
+        {
+            // An earlier handler may have removed this one
+            std::unique_lock<std::mutex> lock(lock_);
+            bool removed = true;
+            auto range = fds_.equal_range(std::get<1>(ev)->fd());
+            for (auto iter = range.first; iter != range.second; ++iter)
+            {
+                if (std::get<2>(iter->second) == std::get<2>(ev))
+                {
+                    removed = false;
+                    break;
+                }
+            }
+            if (removed)
+            {
+                continue;
+            }
+        }
         (*std::get<2>(ev))(std::get<1>(ev));
     }
 }
-- 
2.43.0


From cd292c0d689f0877298fa1041c158b807de7172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 15/62] fix: event_loop: the stop flag is shared by threads

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index f28caa5..6beda25 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -7,6 +7,7 @@
 #include <queue>
 #include <tuple>
 #include <mutex>
+#include <atomic>
 #include <functional>
 #include "cppev/nio.h"
 #include "cppev/sysconfig.h"
@@ -136,7 +137,7 @@ private:
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
-    bool stop_;
+    std::atomic<bool> stop_;
 };
 
 }   // namespace cppev
-- 
2.43.0


From 54e660b8068d433e3820f8a80822b418fb86da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 16/62] fix: thread_pool: give every thread the arguments, not
 only the first

---
 src/include/cppev/thread_pool.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 8581af9..97a75d0 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -25,7 +25,14 @@ public:
     {
         for (int i = 0; i < thr_num; ++i)
         {
-            thrs_.push_back(std::make_unique<Runnable>(std::forward<Args>(args)...));
+            if (i + 1 < thr_num)
+            {
+                thrs_.push_back(std::make_unique<Runnable>(share<Args>(args)...));
+            }
+            else
+            {
+                thrs_.push_back(std::make_unique<Runnable>(std::forward<Args>(args)...));
+            }
         }
     }
 
@@ -84,6 +91,22 @@ public:
 
 protected:
     std::vector<std::unique_ptr<Runnable>> thrs_;
+
+private:
+    // An argument given as rvalue can be moved only once, so that every thread but the last takes a copy
+    template <typename Arg>
+    static decltype(auto) share(std::remove_reference_t<Arg> &arg)
+    {
+        using value_type = std::remove_cv_t<std::remove_reference_t<Arg>>;
+        if constexpr (!std::is_lvalue_reference<Arg>::value && std::is_copy_constructible<value_type>::value)
+        {
+            return value_type(arg);
+        }
+        else
+        {
+            return static_cast<Arg &&>(arg);
+        }
+    }
 };
 
 namespace task_queue
-- 
2.43.0


From b31681911477bf479a487260cc758f9428f305ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 17/62] fix: rdlockguard/wrlockguard: release what is held, and
 only once

---
 src/include/cppev/lock.h |   8 +++
 src/lib/lock.cc          | 114 +++++++++++++++++++++++++++++----------
 2 files changed, 94 insertions(+), 28 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d62bf86..d49be5c 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -183,7 +183,11 @@ public:
     void unlock();
 
 private:
+    void release() noexcept;
+
     pshared_rwlock *rwlock_;
+
+    bool owned_;
 };
 
 class wrlockguard final
@@ -203,7 +207,11 @@ public:
     void unlock();
 
 private:
+    void release() noexcept;
+
     pshared_rwlock *rwlock_;
+
+    bool owned_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index b87c2d9..5b27fff 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -360,92 +360,150 @@ bool pshared_rwlock::try_wrlock()
 
 
 rdlockguard::rdlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 rdlockguard::rdlockguard(rdlockguard &&other) noexcept
+: rwlock_(other.rwlock_), owned_(other.owned_)
 {
-    this->rwlock_ = other.rwlock_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (&other != this)
+    {
+        release();
+
+        this->rwlock_ = other.rwlock_;
+        this->owned_ = other.owned_;
+        other.rwlock_ = nullptr;
+        other.owned_ = false;
+    }
 
     return *this;
 }
 
 rdlockguard::~rdlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
-    {
-        try
-        {
-            rwlock_->unlock();
-        }
-        catch(...)
-        {
-        }
-    }
+    release();
 }
 
 void rdlockguard::lock()
 {
+    if (rwlock_ == nullptr)
+    {
+        throw_system_error("rdlockguard lock error", EPERM);
+    }
+    if (owned_)
+    {
+        throw_system_error("rdlockguard lock error", EDEADLK);
+    }
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 void rdlockguard::unlock()
 {
+    if (!owned_)
+    {
+        throw_system_error("rdlockguard unlock error", EPERM);
+    }
     rwlock_->unlock();
+    owned_ = false;
+}
+
+void rdlockguard::release() noexcept
+{
+    if (owned_)
+    {
+        try
+        {
+            rwlock_->unlock();
+        }
+        catch(...)
+        {
+        }
+        owned_ = false;
+    }
 }
 
 
 wrlockguard::wrlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 wrlockguard::wrlockguard(wrlockguard &&other) noexcept
+: rwlock_(other.rwlock_), owned_(other.owned_)
 {
-    this->rwlock_ = other.rwlock_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (&other != this)
+    {
+        release();
+
+        this->rwlock_ = other.rwlock_;
+        this->owned_ = other.owned_;
+        other.rwlock_ = nullptr;
+        other.owned_ = false;
+    }
 
     return *this;
 }
 
 wrlockguard::~wrlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
-    {
-        try
-        {
-            rwlock_->unlock();
-        }
-        catch(...)
-        {
-        }
-    }
+    release();
 }
 
 void wrlockguard::lock()
 {
+    if (rwlock_ == nullptr)
+    {
+        throw_system_error("wrlockguard lock error", EPERM);
+    }
+    if (owned_)
+    {
+        throw_system_error("wrlockguard lock error", EDEADLK);
+    }
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 void wrlockguard::unlock()
 {
+    if (!owned_)
+    {
+        throw_system_error("wrlockguard unlock error", EPERM);
+    }
     rwlock_->unlock();
+    owned_ = false;
+}
+
+void wrlockguard::release() noexcept
+{
+    if (owned_)
+    {
+        try
+        {
+            rwlock_->unlock();
+        }
+        catch(...)
+        {
+        }
+        owned_ = false;
+    }
 }
 
 }   // namespace cppev
\ No newline at end of file
-- 
2.43.0


From d77e2c0f97778bb04eca830b5291ffd5c35c47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 18/62] fix: pshared_one_time_fence: opening releases every
 waiter

---
 src/include/cppev/lock.h | 2 +-
 src/lib/lock.cc          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d49be5c..206c3aa 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -111,7 +111,7 @@ public:
     bool ok() const noexcept;
 
 private:
-    bool ok_;
+    std::atomic<bool> ok_;
 
     pshared_lock lock_;
 
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 5b27fff..da4dfe7 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -225,7 +225,7 @@ void pshared_one_time_fence::wait()
         std::unique_lock<pshared_lock> lock(lock_);
         if (!ok_)
         {
-            cond_.wait(lock, [this](){ return ok_; });
+            cond_.wait(lock, [this]() -> bool { return ok_; });
         }
     }
 }
@@ -236,7 +236,7 @@ void pshared_one_time_fence::notify()
     {
         std::unique_lock<pshared_lock> lock(lock_);
         ok_ = true;
-        cond_.notify_one();
+        cond_.notify_all();
     }
 }
 
-- 
2.43.0


From 592f1b8f976d96082b47523154af9dce496f1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 19/62] fix: pshared_barrier: a surplus arrival does not
 disturb the release

---
 src/lib/lock.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index da4dfe7..a1c0f3f 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -254,18 +254,18 @@ pshared_barrier::pshared_barrier(int count)
 void pshared_barrier::wait()
 {
     std::unique_lock<pshared_lock> lock(lock_);
+    if (count_ <= 0)
+    {
+        throw_logic_error("too many threads waited in the barrier");
+    }
     --count_;
     if (count_ == 0)
     {
         cond_.notify_all();
     }
-    else if (count_ > 0)
-    {
-        cond_.wait(lock, [this]() { return count_ == 0; });
-    }
     else
     {
-        throw_logic_error("too many threads waited in the barrier");
+        cond_.wait(lock, [this]() { return count_ == 0; });
     }
 }
 
-- 
2.43.0


From e969e986085140096411b1f3597465ebb0a18a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 20/62] fix: async_logger: write out everything logged before
 destruction

---
 src/lib/async_logger.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fad5cd3..a1f02c2 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -34,8 +34,11 @@ async_logger::~async_logger()
     {
         return;
     }
-    stop_ = true;
-    cond_.notify_one();
+    {
+        std::unique_lock<std::recursive_mutex> lock(lock_);
+        stop_ = true;
+        cond_.notify_one();
+    }
     join();
 }
 
@@ -112,7 +115,8 @@ async_logger &async_logger::operator<<(const async_logger &)
 
 void async_logger::run_impl()
 {
-    while (!stop_)
+    // After stop, go on until everything logged is written.
+    while (true)
     {
         int prev = -1;
         {
@@ -126,6 +130,10 @@ void async_logger::run_impl()
                     }
                 );
             }
+            if (0 == buffers_[curr_].size())
+            {
+                break;
+            }
             prev = curr_;
             curr_ = 1 - curr_;
         }
-- 
2.43.0


From 0dd3f4ae43c71698bec2843ef48d7a87366bb703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 21/62] fix: async_logger: write what a partial or interrupted
 write left

---
 src/lib/async_logger.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index a1f02c2..195f5fb 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -7,6 +7,8 @@
 #include <string>
 #include <unordered_set>
 #include <cassert>
+#include <cerrno>
+#include <poll.h>
 #include <unistd.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
@@ -15,6 +17,29 @@
 namespace cppev
 {
 
+// The system may accept only a part, be interrupted, or need waiting for.
+static void write_all(int fd, const char *ptr, size_t len)
+{
+    while (len)
+    {
+        ssize_t ret = write(fd, ptr, len);
+        if (ret >= 0)
+        {
+            ptr += ret;
+            len -= ret;
+        }
+        else if (EAGAIN == errno || EWOULDBLOCK == errno)
+        {
+            pollfd pfd = { fd, POLLOUT, 0 };
+            poll(&pfd, 1, -1);
+        }
+        else if (EINTR != errno)
+        {
+            break;
+        }
+    }
+}
+
 async_logger::async_logger(int level)
 : level_(level), stop_(false), curr_(0), recur_level_(0)
 {
@@ -142,7 +167,7 @@ void async_logger::run_impl()
 
         if (buf.size())
         {
-            write(level_, buf.rawbuf(), buf.size());
+            write_all(level_, buf.rawbuf(), buf.size());
             buf.clear();
         }
     }
-- 
2.43.0


From 2ea373ab7297dc001ac594aaf1d9473b22f0ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 22/62] fix: async_logger: log the whole of a string with NUL
 bytes

---
 src/lib/async_logger.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 195f5fb..975b82f 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -69,7 +69,13 @@ async_logger::~async_logger()
 
 async_logger &async_logger::operator<<(const std::string &str)
 {
-    return (*this) << str.c_str();
+    lock_.lock();
+    if (0 == recur_level_++)
+    {
+        write_header(buffers_[curr_]);
+    }
+    buffers_[curr_].put_string(str);
+    return *this;
 }
 
 async_logger &async_logger::operator<<(long x)
-- 
2.43.0


From 0db7c6110c0a7cb1da1611ab509bf36922f4a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 23/62] fix: async_logger: destruction completes with an
 unfinished line

---
 src/lib/async_logger.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 975b82f..d8c23af 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -62,6 +62,13 @@ async_logger::~async_logger()
     {
         std::unique_lock<std::recursive_mutex> lock(lock_);
         stop_ = true;
+        // A line left open by this thread must not keep the lock.
+        auto recur = recur_level_;
+        recur_level_ = 0;
+        while (recur--)
+        {
+            lock_.unlock();
+        }
         cond_.notify_one();
     }
     join();
-- 
2.43.0


From 34ede05d3bf3cfa82acb9d1bf0659d2aaa10f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 24/62] fix: async_logger: let a forked child exit

---
 src/include/cppev/async_logger.h |  6 +++++-
 src/lib/async_logger.cc          | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/include/cppev/async_logger.h b/src/include/cppev/async_logger.h
index 7380a42..1a7d0de 100644
--- a/src/include/cppev/async_logger.h
+++ b/src/include/cppev/async_logger.h
@@ -7,6 +7,7 @@
 #include <condition_variable>
 #include <shared_mutex>
 #include <memory>
+#include <sys/types.h>
 #include "cppev/buffer.h"
 #include "cppev/utils.h"
 #include "cppev/runnable.h"
@@ -47,7 +48,10 @@ private:
 
     std::recursive_mutex lock_;
 
-    std::condition_variable_any cond_;
+    std::unique_ptr<std::condition_variable_any> cond_;
+
+    // The process that has the thread
+    pid_t pid_;
 
     int curr_;
 
diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index d8c23af..17857bf 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -41,7 +41,8 @@ static void write_all(int fd, const char *ptr, size_t len)
 }
 
 async_logger::async_logger(int level)
-: level_(level), stop_(false), curr_(0), recur_level_(0)
+: level_(level), stop_(false), cond_(new std::condition_variable_any()),
+  pid_(getpid()), curr_(0), recur_level_(0)
 {
     if (level_ < 0)
     {
@@ -59,6 +60,13 @@ async_logger::~async_logger()
     {
         return;
     }
+    if (getpid() != pid_)
+    {
+        // A forked child has no thread to end, the lock may never be released
+        // and destroying the condition would wait for the thread for ever.
+        cond_.release();
+        return;
+    }
     {
         std::unique_lock<std::recursive_mutex> lock(lock_);
         stop_ = true;
@@ -69,7 +77,7 @@ async_logger::~async_logger()
         {
             lock_.unlock();
         }
-        cond_.notify_one();
+        cond_->notify_one();
     }
     join();
 }
@@ -147,7 +155,7 @@ async_logger &async_logger::operator<<(const async_logger &)
     {
         lock_.unlock();
     }
-    cond_.notify_one();
+    cond_->notify_one();
     return *this;
 }
 
@@ -161,7 +169,7 @@ void async_logger::run_impl()
             std::unique_lock<std::recursive_mutex> lock(lock_);
             if (0 == buffers_[curr_].size())
             {
-                cond_.wait(lock,
+                cond_->wait(lock,
                     [this]() -> bool
                     {
                         return (this->buffers_[curr_].size() || this->stop_);
-- 
2.43.0


From 24a1e8b05359dcaee4b2dfd913901b60f9386741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 25/62] fix: exec_cmd: return output with NUL bytes in full

---
 src/include/cppev/subprocess.h | 4 ++++
 src/lib/subprocess.cc          | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 6e1a59d..13c8b80 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -73,6 +73,10 @@ public:
     pid_t pid() const noexcept;
 
 private:
+    // The output may contain '\0'
+    friend std::tuple<int, std::string, std::string> subprocess::exec_cmd(
+        const std::string &cmd, const std::vector<std::string> &env);
+
     std::string cmd_;
 
     std::vector<std::string> env_;
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 4749909..31c0f13 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -22,7 +22,8 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 {
     subp_open subp(cmd, env);
     subp.wait();
-    return std::make_tuple(subp.returncode(), subp.stdout(), subp.stderr());
+    return std::make_tuple(subp.returncode(), subp.stdout_->rbuffer().get_string(),
+        subp.stderr_->rbuffer().get_string());
 }
 
 }   // namespace subprocess
-- 
2.43.0


From 905dfe8c28f43d27cf6ae38ea2481387bc6ecc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 26/62] fix: subp_open: deliver input that the pipe did not
 take at once

---
 src/lib/subprocess.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 31c0f13..c86100f 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -117,6 +117,11 @@ void subp_open::communicate(const char *input, int len)
     if (input != nullptr && len != 0)
     {
         stdin_->wbuffer().produce(input, len);
+    }
+
+    // Input may be left from calls before
+    if (stdin_->wbuffer().size())
+    {
         stdin_->write_all();
     }
 }
-- 
2.43.0


From 9097e7a79d09c7fad856ba13a6acd51099382783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 27/62] fix: subp_open: survive input to a subprocess that does
 not read it

---
 src/lib/subprocess.cc | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index c86100f..3b7b1b9 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -28,6 +28,33 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 }   // namespace subprocess
 
+// A subprocess that does not read its input must not kill this process.
+static void write_no_sigpipe(nstream &iop)
+{
+    sigset_t pipe_set, pending, origin;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    sigemptyset(&pending);
+    sigpending(&pending);
+    bool was_pending = sigismember(&pending, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &pipe_set, &origin);
+
+    iop.write_all();
+
+    if (iop.eop())
+    {
+        // Nobody will ever read the rest
+        iop.wbuffer().clear();
+        sigpending(&pending);
+        if (!was_pending && sigismember(&pending, SIGPIPE))
+        {
+            int sig;
+            sigwait(&pipe_set, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &origin, nullptr);
+}
+
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
 : cmd_(cmd), env_(env)
 {
@@ -122,7 +149,7 @@ void subp_open::communicate(const char *input, int len)
     // Input may be left from calls before
     if (stdin_->wbuffer().size())
     {
-        stdin_->write_all();
+        write_no_sigpipe(*stdin_);
     }
 }
 
-- 
2.43.0


From 1e9a0bc27238c0772541ad66d67b33631afd2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 28/62] fix: subp_open: do not leak descriptors, here or into
 subprocesses

---
 src/lib/subprocess.cc | 83 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 17 deletions(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 3b7b1b9..a2daddf 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -3,6 +3,7 @@
 #include "cppev/utils.h"
 #include <map>
 #include <set>
+#include <fcntl.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -55,32 +56,80 @@ static void write_no_sigpipe(nstream &iop)
     pthread_sigmask(SIG_SETMASK, &origin, nullptr);
 }
 
-subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+namespace
 {
-    int fds[2];
-    int zero, one, two;
 
-    if (pipe(fds) < 0)
+// Closed when the scope is left, and in every executed program
+struct pipe_end
+{
+    int fd = -1;
+
+    ~pipe_end()
     {
-        throw_system_error("pipe error");
+        if (fd != -1)
+        {
+            close(fd);
+        }
     }
-    zero = fds[0];
-    stdin_ = std::make_unique<nstream>(fds[1]);
 
-    if (pipe(fds) < 0)
+    std::unique_ptr<nstream> release()
     {
-        throw_system_error("pipe error");
+        auto iop = std::make_unique<nstream>(fd);
+        fd = -1;
+        return iop;
     }
-    one = fds[1];
-    stdout_ = std::make_unique<nstream>(fds[0]);
+};
+
+}   // namespace
 
+static void open_pipe(pipe_end &rd, pipe_end &wr)
+{
+    int fds[2];
+#ifdef __linux__
+    if (pipe2(fds, O_CLOEXEC) < 0)
+    {
+        throw_system_error("pipe error");
+    }
+#else
     if (pipe(fds) < 0)
     {
         throw_system_error("pipe error");
     }
-    two = fds[1];
-    stderr_ = std::make_unique<nstream>(fds[0]);
+#endif
+    rd.fd = fds[0];
+    wr.fd = fds[1];
+    for (pipe_end *end : { &rd, &wr })
+    {
+#ifndef __linux__
+        fcntl(end->fd, F_SETFD, FD_CLOEXEC);
+#endif
+        // These numbers are for the streams of the subprocess
+        if (end->fd <= STDERR_FILENO)
+        {
+            int fd = fcntl(end->fd, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+            if (fd < 0)
+            {
+                throw_system_error("fcntl error");
+            }
+            close(end->fd);
+            end->fd = fd;
+        }
+    }
+}
+
+subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
+: cmd_(cmd), env_(env)
+{
+    pipe_end zero, one, two, rd, wr;
+
+    open_pipe(zero, wr);
+    stdin_ = wr.release();
+
+    open_pipe(rd, one);
+    stdout_ = rd.release();
+
+    open_pipe(rd, two);
+    stderr_ = rd.release();
 
     pid_t pid = fork();
 
@@ -91,9 +140,9 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == 0)
     {
-        dup2(zero, STDIN_FILENO);
-        dup2(one, STDOUT_FILENO);
-        dup2(two, STDERR_FILENO);
+        dup2(zero.fd, STDIN_FILENO);
+        dup2(one.fd, STDOUT_FILENO);
+        dup2(two.fd, STDERR_FILENO);
 
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
         std::string cmd_with_path = cmd_with_args[0];
-- 
2.43.0


From bfd9729a657f53418c9bd8d928e6059a48be9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 29/62] fix: subp_open: report a failed fork to the caller

---
 src/lib/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index a2daddf..6efa071 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -135,7 +135,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == -1)
     {
-        _exit(-1);
+        throw_system_error("fork error");
     }
 
     if (pid == 0)
-- 
2.43.0


From d465776749a897966628c215766506ba68bc55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 30/62] fix: subp_open: polling again after the end gives the
 same answer

---
 src/include/cppev/subprocess.h |  2 ++
 src/lib/subprocess.cc          | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 13c8b80..472fcf3 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -90,6 +90,8 @@ private:
     pid_t pid_;
 
     int returncode_;
+
+    bool finished_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 6efa071..a934979 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -118,7 +118,7 @@ static void open_pipe(pipe_end &rd, pipe_end &wr)
 }
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+: cmd_(cmd), env_(env), returncode_(0), finished_(false)
 {
     pipe_end zero, one, two, rd, wr;
 
@@ -172,12 +172,16 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
 bool subp_open::poll()
 {
-    int ret = waitpid(pid_, &returncode_, WNOHANG);
-    if (ret == -1)
+    if (!finished_)
     {
-        _exit(-1);
+        int ret = waitpid(pid_, &returncode_, WNOHANG);
+        if (ret == -1)
+        {
+            throw_system_error("waitpid error");
+        }
+        finished_ = (ret != 0);
     }
-    return ret != 0;
+    return finished_;
 }
 
 void subp_open::wait()
-- 
2.43.0


From c34c260aa28e1c20309b75ef81fdbb1d0e5afbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 31/62] fix: subp_open: do not signal a pid that may have been
 reused

---
 src/lib/subprocess.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index a934979..33b0b7e 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -218,6 +218,11 @@ void subp_open::communicate(const std::string &input)
 
 void subp_open::send_signal(int sig) const
 {
+    // Once waited for, the pid may belong to another process
+    if (finished_)
+    {
+        throw_system_error("kill error", ESRCH);
+    }
     if (::kill(pid(), sig) < 0)
     {
         throw_system_error("kill error");
-- 
2.43.0


From c89817d5b56fa8b89d1d76c13816ee318f98a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 32/62] fix: shared_memory: do not clear what others already
 wrote

---
 src/lib/ipc.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9224798..aa63f0f 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -1,5 +1,4 @@
 #include "cppev/ipc.h"
-#include <cstring>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
@@ -57,10 +56,6 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         throw_system_error("mmap error");
     }
     close(fd);
-    if (creator_)
-    {
-        memset(ptr_, 0, size_);
-    }
 }
 
 shared_memory::~shared_memory() noexcept
-- 
2.43.0


From 54b9aff2d1fbbb72e75cb980d4cec6cc997153cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 33/62] fix: shared_memory: an opener faster than the creator,
 and failed openings

---
 src/lib/ipc.cc | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index aa63f0f..bbfc91f 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -1,11 +1,32 @@
 #include "cppev/ipc.h"
 #include <fcntl.h>
 #include <unistd.h>
+#include <sys/file.h>
+#include <sys/stat.h>
 #include <sys/mman.h>
 
 namespace cppev
 {
 
+// Whoever comes first gives the memory its size, others may be faster than
+// the creator. New bytes are zero, and bytes in use are never cut off.
+static void extend(int fd, int size)
+{
+    while (flock(fd, LOCK_EX) == -1 && errno == EINTR) {}
+    struct stat st;
+    int ret = fstat(fd, &st);
+    if (ret == 0 && st.st_size < size)
+    {
+        ret = ftruncate(fd, size);
+    }
+    int err = errno;
+    flock(fd, LOCK_UN);
+    if (ret == -1)
+    {
+        throw_system_error("ftruncate error", err);
+    }
+}
+
 shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 : name_(name), size_(size), ptr_(nullptr), creator_(false)
 {
@@ -42,18 +63,27 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         }
     }
 
-    if (creator_)
+    try
     {
-        int ret = ftruncate(fd, size_);
-        if (ret == -1)
+        if (size_ <= 0)
+        {
+            throw_system_error("shared_memory size error", EINVAL);
+        }
+        extend(fd, size_);
+        ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+        if (ptr_ == MAP_FAILED)
         {
-            throw_system_error("ftruncate error");
+            throw_system_error("mmap error");
         }
     }
-    ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-    if (ptr_ == MAP_FAILED)
+    catch (...)
     {
-        throw_system_error("mmap error");
+        close(fd);
+        if (creator_)
+        {
+            shm_unlink(name_.c_str());
+        }
+        throw;
     }
     close(fd);
 }
-- 
2.43.0


From fead66b48e63f31d907a4cd2aa7534c46d131501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 34/62] fix: shared_memory: opening while another process
 unlinks

---
 src/lib/ipc.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index bbfc91f..9aa03e6 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -31,23 +31,20 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 : name_(name), size_(size), ptr_(nullptr), creator_(false)
 {
     int fd = -1;
-    fd = shm_open(name_.c_str(), O_RDWR, mode);
-    if (fd < 0)
+    // Others may create or unlink it in between
+    while (fd < 0)
     {
+        fd = shm_open(name_.c_str(), O_RDWR, mode);
+        if (fd >= 0)
+        {
+            break;
+        }
         if (errno == ENOENT)
         {
             fd = shm_open(name_.c_str(), O_RDWR | O_CREAT | O_EXCL, mode);
             if (fd < 0)
             {
-                if (errno == EEXIST)
-                {
-                    fd = shm_open(name_.c_str(), O_RDWR, mode);
-                    if (fd < 0)
-                    {
-                        throw_system_error("shm_open error");
-                    }
-                }
-                else
+                if (errno != EEXIST)
                 {
                     throw_system_error("shm_open error");
                 }
-- 
2.43.0


From 7c3c8becba24f13889231032192e9959a098dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 35/62] fix: semaphore: opening while another process unlinks

---
 src/lib/ipc.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9aa03e6..7a02bb2 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -106,23 +106,21 @@ void shared_memory::unlink()
 semaphore::semaphore(const std::string &name, mode_t mode)
 : name_(name), sem_(nullptr), creator_(false)
 {
-    sem_ = sem_open(name_.c_str(), 0);
-    if (sem_ == SEM_FAILED)
+    // Others may create or unlink it in between
+    sem_ = SEM_FAILED;
+    while (sem_ == SEM_FAILED)
     {
+        sem_ = sem_open(name_.c_str(), 0);
+        if (sem_ != SEM_FAILED)
+        {
+            break;
+        }
         if (errno == ENOENT)
         {
             sem_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, mode, 0);
             if (sem_ == SEM_FAILED)
             {
-                if (errno == EEXIST)
-                {
-                    sem_ = sem_open(name_.c_str(), 0);
-                    if (sem_ == SEM_FAILED)
-                    {
-                        throw_system_error("sem_open error");
-                    }
-                }
-                else
+                if (errno != EEXIST)
                 {
                     throw_system_error("sem_open error");
                 }
-- 
2.43.0


From 650d22e90bdd3c3fca25c177349aa7c30d579e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 36/62] fix: shared_memory: move assignment unmaps what the
 target held

---
 src/include/cppev/ipc.h | 3 +++
 src/lib/ipc.cc          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 459b076..438d3b8 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -31,6 +31,7 @@ public:
         {
             return *this;
         }
+        release();
         move(std::forward<shared_memory>(other));
         return *this;
     }
@@ -66,6 +67,8 @@ public:
     }
 
 private:
+    void release() noexcept;
+
     void move(shared_memory &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 7a02bb2..12a93de 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -86,6 +86,11 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 }
 
 shared_memory::~shared_memory() noexcept
+{
+    release();
+}
+
+void shared_memory::release() noexcept
 {
     if (ptr_ != nullptr && size_ != 0)
     {
-- 
2.43.0


From 8dbe490f90c52cd3d9e838d8a29bbdc46e9a142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 37/62] fix: semaphore: move assignment closes what the target
 held

---
 src/include/cppev/ipc.h | 3 +++
 src/lib/ipc.cc          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 438d3b8..04a862f 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -114,6 +114,7 @@ public:
         {
             return *this;
         }
+        release_handle();
         move(std::forward<semaphore>(other));
         return *this;
     }
@@ -134,6 +135,8 @@ public:
     }
 
 private:
+    void release_handle() noexcept;
+
     void move(semaphore &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 12a93de..c6c6925 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -143,6 +143,11 @@ semaphore::semaphore(const std::string &name, mode_t mode)
 }
 
 semaphore::~semaphore() noexcept
+{
+    release_handle();
+}
+
+void semaphore::release_handle() noexcept
 {
     if (sem_ != SEM_FAILED)
     {
-- 
2.43.0


From 8bb54ac7806f6c38ac44dd72d83e41488c8ee391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 38/62] fix: semaphore: a signal does not end acquiring
 half-way

---
 src/lib/ipc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index c6c6925..5b6198d 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -175,9 +175,12 @@ void semaphore::acquire(int count)
 {
     for (int i = 0; i < count; ++i)
     {
-        if (sem_wait(sem_) == -1)
+        while (sem_wait(sem_) == -1)
         {
-            throw_system_error("sem_wait error");
+            if (errno != EINTR)
+            {
+                throw_system_error("sem_wait error");
+            }
         }
     }
 }
-- 
2.43.0


From 33d6b909cd8735349c0332efbb8f210df4d0e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 39/62] fix: trigger timed tasks from per-task stamps instead
 of a table over the lcm of all intervals, which never got built for e.g. 60
 and 25 Hz, and keep sub-tick remainders of coarse clocks

---
 src/include/cppev/scheduler.h | 65 +++++++++--------------------------
 1 file changed, 16 insertions(+), 49 deletions(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 3294926..7a80512 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -9,7 +9,6 @@
 #include <chrono>
 #include <memory>
 #include <string>
-#include <map>
 #include <thread>
 #include <algorithm>
 #include "cppev/utils.h"
@@ -52,32 +51,12 @@ public:
             timer_tasks_heap.push({ std::get<1>(timer_tasks[i]) , i });
         }
 
-        std::vector<int64_t> intervals;
-        for (size_t i = 0; i < timer_tasks.size(); ++i)
-        {
-            intervals.push_back(1'000'000'000 / std::get<0>(timer_tasks[i]));
-        }
-        int64_t lcm = intervals[0];
-        int64_t gcd = intervals[0];
-        if (intervals.size() >= 2)
-        {
-            lcm = least_common_multiple(intervals);
-            gcd = greatest_common_divisor(intervals);
-        }
-        interval_ = lcm;
-
         while (!timer_tasks_heap.empty())
         {
             size_t idx = std::get<1>(timer_tasks_heap.top());
             timer_tasks_heap.pop();
+            intervals_.push_back(1'000'000'000 / std::get<0>(timer_tasks[idx]));
             timer_handlers_.push_back(std::get<2>(timer_tasks[idx]));
-            for (int64_t stamp = 0; stamp < lcm; stamp += gcd)
-            {
-                if (stamp % intervals[idx] == 0)
-                {
-                    tasks_[stamp].push_back(timer_handlers_.size() - 1);
-                }
-            }
         }
 
         thr_ = std::thread(
@@ -93,35 +72,26 @@ public:
                     tp_curr = ceil_time_point<Clock>(tp_curr);
                     std::this_thread::sleep_until(tp_curr);
                 }
+                // Next trigger of each task and current trigger, counted from start time
+                const auto tp_start = tp_curr;
+                std::vector<int64_t> stamps(intervals_.size(), 0);
+                int64_t curr = 0;
                 while(!stop_)
                 {
-                    for (auto iter = tasks_.cbegin(); !stop_ && (iter != tasks_.cend()); )
-                    {
-                        auto curr = iter;
-                        auto next = ++iter;
+                    const auto tp_trigger = tp_start + std::chrono::nanoseconds(curr);
 
-                        int64_t span;
-                        if (next == tasks_.cend())
-                        {
-                            span = interval_ - curr->first;
-                        }
-                        else
-                        {
-                            span = next->first - curr->first;
-                        }
-
-                        for (auto idx : curr->second)
+                    for (size_t idx = 0; idx < timer_handlers_.size(); ++idx)
+                    {
+                        if (stamps[idx] == curr)
                         {
-                            timer_handlers_[idx](tp_curr.time_since_epoch());
+                            timer_handlers_[idx](tp_trigger.time_since_epoch());
+                            stamps[idx] += intervals_[idx];
                         }
+                    }
 
-                        auto tp_next = tp_curr + std::chrono::nanoseconds(span);
-
-                        std::this_thread::sleep_until(tp_next);
+                    curr = *std::min_element(stamps.cbegin(), stamps.cend());
 
-                        tp_curr = std::chrono::time_point_cast<
-                            typename decltype(tp_curr)::duration>(tp_next);
-                    }
+                    std::this_thread::sleep_until(tp_start + std::chrono::nanoseconds(curr));
                 }
                 for (const auto &task : exit_tasks)
                 {
@@ -155,14 +125,11 @@ private:
     // whether thread shall stop
     bool stop_;
 
-    // time interval in nanoseconds
-    int64_t interval_;
-
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
 
-    // timepoint -> timed handler index
-    std::map<int64_t, std::vector<size_t>> tasks_;
+    // time intervals of the handlers in nanoseconds
+    std::vector<int64_t> intervals_;
 
     // backend thread executing tasks
     std::thread thr_;
-- 
2.43.0


From 03fe7414bcef72b2f48dac9e044f854c6f56d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 40/62] fix: make the stop flag of timed_scheduler atomic, it
 is shared by two threads

---
 src/include/cppev/scheduler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 7a80512..ba969aa 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -1,6 +1,7 @@
 #ifndef _scheduler_h_6C0224787A17_
 #define _scheduler_h_6C0224787A17_
 
+#include <atomic>
 #include <cstddef>
 #include <functional>
 #include <tuple>
@@ -123,7 +124,7 @@ public:
 
 private:
     // whether thread shall stop
-    bool stop_;
+    std::atomic<bool> stop_;
 
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
-- 
2.43.0


From 02160b97183342169edce3b9add16dc55cf39f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 41/62] fix: reactor: register a new connection before
 on_accept/on_connect, which may leave data to be written or close it

---
 src/lib/tcp.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7361feb..b3555ce 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -115,10 +115,10 @@ void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->evlp().fd_remove(iop, true);
-    // The sequence CANNOT be changed, since on_accept may call async_write
+    // The sequence CANNOT be changed, since on_accept may call async_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_accept(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_accept(iopt);
 }
 
 void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
@@ -141,10 +141,10 @@ void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
         return;
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    // The sequence CANNOT be changed since on_connect may call aysnc_write
+    // The sequence CANNOT be changed since on_connect may call aysnc_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_connect(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_connect(iopt);
 }
 
 void iohandler::run_impl()
-- 
2.43.0


From 31ca467b4d9f34c1a0ed459d8254707a88c91a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 42/62] fix: reactor: let on_write_complete leave data to be
 written

---
 src/lib/tcp.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index b3555ce..5aad5db 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -93,10 +93,12 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     if (0 == iopt->wbuffer().size())
     {
         iopt->evlp().fd_remove(iop, false);
+        // on_write_complete may call async_write or safely_close
+        iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
-        if (!iopt->is_closed())
+        if (iopt->is_closed())
         {
-            iopt->evlp().fd_register(iop, fd_event::fd_readable);
+            return;
         }
     }
     if (iopt->eop() || iopt->is_reset())
-- 
2.43.0


From c80cfaaff61974a68552bda23661abe0428fdcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 43/62] fix: reactor: allow to close a connection from
 on_read_complete at its end and from on_closed

---
 src/lib/tcp.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 5aad5db..912ddc8 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -74,10 +74,17 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     iopt->read_all();
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
+    if (iopt->is_closed())
+    {
+        return;
+    }
     if (iopt->eof() || iopt->is_reset())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
@@ -104,7 +111,10 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     if (iopt->eop() || iopt->is_reset())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
-- 
2.43.0


From c90054f6677869b44f41edd3e63e41a33f519708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 44/62] fix: reactor: leave the descriptor of a closed
 connection alone in async_write and safely_close

---
 src/lib/tcp.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 912ddc8..7d66424 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -33,6 +33,11 @@ event_loop *tp_shared_data::minloads_get_evlp()
 
 void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
+    // The descriptor may belong to another connection by now
+    if (iopt->is_closed())
+    {
+        return;
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->write_all();
     if (0 == iopt->wbuffer().size())
@@ -49,6 +54,11 @@ void async_write(const std::shared_ptr<nsocktcp> &iopt)
 
 void safely_close(const std::shared_ptr<nsocktcp> &iopt)
 {
+    // The descriptor may belong to another connection by now
+    if (iopt->is_closed())
+    {
+        return;
+    }
     std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
     // epoll/kqueue will remove fd when it's closed
     iopt->evlp().fd_remove(iop, true, false);
-- 
2.43.0


From 87b03ad9113d272174dc8caf9e541cba04c66c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 45/62] fix: reactor: write what on_read_complete left to be
 written when the opposite host has shut down its sending side

---
 src/lib/tcp.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7d66424..104467c 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -81,11 +81,21 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
         throw_logic_error("dynamic_pointer_cast error");
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    iopt->read_all();
-    dp->on_read_complete(iopt);
-    iopt->rbuffer().clear();
-    if (iopt->is_closed())
+    // At the end of the stream the second time, when what was left to be written then has been written
+    bool ended = iopt->eof();
+    if (!ended)
+    {
+        iopt->read_all();
+        dp->on_read_complete(iopt);
+        iopt->rbuffer().clear();
+        if (iopt->is_closed())
+        {
+            return;
+        }
+    }
+    if (!ended && iopt->eof() && !iopt->is_reset() && !iopt->eop() && iopt->wbuffer().size())
     {
+        // The opposite host may have closed its sending side only
         return;
     }
     if (iopt->eof() || iopt->is_reset())
-- 
2.43.0


From 310607e47243b96969256db63e378a969de57975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 46/62] fix: reactor: write what on_write_complete asks for in
 a loop, recursion overflows the stack

---
 src/lib/tcp.cc | 52 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 104467c..337b10d 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -30,6 +30,43 @@ event_loop *tp_shared_data::minloads_get_evlp()
     return minloads_evlp;
 }
 
+// Write what is in the write buffer, and wait for the socket to be writable if something is left
+// @return  whether all was written
+static bool write_or_wait(const std::shared_ptr<nsocktcp> &iopt)
+{
+    iopt->write_all();
+    if (0 == iopt->wbuffer().size())
+    {
+        return true;
+    }
+    std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
+    iopt->evlp().fd_remove(iop, false);
+    iopt->evlp().fd_register(iop, fd_event::fd_writable);
+    return false;
+}
+
+// Connection whose on_write_complete is being executed by this thread
+static thread_local const nsocktcp *completing = nullptr;
+
+// Whether that on_write_complete has called async_write
+static thread_local bool write_again = false;
+
+// Execute on_write_complete, and then write what it asks to be written. It's a loop since
+// recursion is as deep as the number of writes that complete at once.
+static void write_completed(const std::shared_ptr<nsocktcp> &iopt)
+{
+    tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
+    const nsocktcp *outer_completing = completing;
+    bool outer_again = write_again;
+    do
+    {
+        completing = iopt.get();
+        write_again = false;
+        dp->on_write_complete(iopt);
+    } while (write_again && !iopt->is_closed() && write_or_wait(iopt));
+    completing = outer_completing;
+    write_again = outer_again;
+}
 
 void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
@@ -38,17 +75,14 @@ void async_write(const std::shared_ptr<nsocktcp> &iopt)
     {
         return;
     }
-    tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
-    iopt->write_all();
-    if (0 == iopt->wbuffer().size())
+    if (completing == iopt.get())
     {
-        dp->on_write_complete(iopt);
+        write_again = true;
+        return;
     }
-    else
+    if (write_or_wait(iopt))
     {
-        std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
-        iopt->evlp().fd_remove(iop, false);
-        iopt->evlp().fd_register(iop, fd_event::fd_writable);
+        write_completed(iopt);
     }
 }
 
@@ -122,7 +156,7 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         iopt->evlp().fd_remove(iop, false);
         // on_write_complete may call async_write or safely_close
         iopt->evlp().fd_register(iop, fd_event::fd_readable);
-        dp->on_write_complete(iopt);
+        write_completed(iopt);
         if (iopt->is_closed())
         {
             return;
-- 
2.43.0


From 49f39185a7afc344a38786c10c006fae36de6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 47/62] fix: reactor: keep accepting after accept has failed,
 for instance for lack of descriptors

---
 src/lib/tcp.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 337b10d..c2da86d 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -1,4 +1,7 @@
 #include "cppev/tcp.h"
+#include <chrono>
+#include <system_error>
+#include <thread>
 
 namespace cppev
 {
@@ -247,7 +250,18 @@ void acceptor::on_acpt_readable(const std::shared_ptr<nio> &iop)
     {
         throw_logic_error("dynamic_pointer_cast error");
     }
-    std::vector<std::shared_ptr<nsocktcp>> conns = iopt->accept();
+    std::vector<std::shared_ptr<nsocktcp>> conns;
+    try
+    {
+        conns = iopt->accept();
+    }
+    catch (const std::system_error &e)
+    {
+        // Such as out of descriptors, the connections stay in the backlog until there are some again
+        log::error << "accept by listening socket " << iopt->fd() << " failed : " << e.what() << log::endl;
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        return;
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
 
     for (auto &conn : conns)
-- 
2.43.0


From 11d23b38c757871a465a4f7cebf45b2cf71803c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 48/62] fix: take a connection that timed out or became
 unreachable for reset instead of throwing, which ends a reactor worker

---
 src/lib/nio.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 6c5193a..ac2e1f4 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -56,6 +56,24 @@ void nio::set_io_block()
     }
 }
 
+// Errors that end a connection without the opposite host closing it
+static bool is_connection_lost(int err)
+{
+    switch (err)
+    {
+    case ECONNRESET :
+    case ECONNABORTED :
+    case ETIMEDOUT :
+    case EHOSTUNREACH :
+    case ENETUNREACH :
+    case ENETDOWN :
+    case ENETRESET :
+        return true;
+    default:
+        return false;
+    }
+}
+
 int nstream::read_chunk(int len)
 {
     rbuffer().resize(rbuffer().offset_ + len);
@@ -78,7 +96,7 @@ int nstream::read_chunk(int len)
             {
                 break;
             }
-            else if (errno == ECONNRESET)
+            else if (is_connection_lost(errno))
             {
                 reset_ = true;
                 break;
@@ -117,7 +135,7 @@ int nstream::write_chunk(int len)
                 eop_ = true;
                 break;
             }
-            else if (errno == ECONNRESET)
+            else if (is_connection_lost(errno))
             {
                 reset_ = true;
                 break;
-- 
2.43.0


From 559a3fe533d78a22970d2731e71aed96cedf5808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 49/62] fix: reactor: take an exception while connecting for a
 failed attempt, it ended the process

---
 src/lib/tcp.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index c2da86d..b7132ba 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -335,15 +335,25 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
     {
         for (int i = 0; i < iter->second; ++i)
         {
-            std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
+            std::shared_ptr<nsocktcp> sock;
             bool succeed;
-            if (std::get<2>(iter->first) == family::local)
+            try
             {
-                succeed = sock->connect_unix(std::get<0>(iter->first));
+                sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
+                if (std::get<2>(iter->first) == family::local)
+                {
+                    succeed = sock->connect_unix(std::get<0>(iter->first));
+                }
+                else
+                {
+                    succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                }
             }
-            else
+            catch (const std::exception &e)
             {
-                succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                // Such as out of descriptors or not an address, other hosts shall be connected all the same
+                log::error << e.what() << log::endl;
+                succeed = false;
             }
             if (succeed)
             {
-- 
2.43.0


From c31ee1d217865be28d4542005d7f53ee859e3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 50/62] fix: reactor: protect the write buffer of the
 connector's pipe, which is shared by all threads that add hosts

---
 src/include/cppev/tcp.h |  2 +-
 src/lib/tcp.cc          | 17 ++++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/include/cppev/tcp.h b/src/include/cppev/tcp.h
index 9e2f176..9413dfc 100644
--- a/src/include/cppev/tcp.h
+++ b/src/include/cppev/tcp.h
@@ -249,7 +249,7 @@ private:
     // Event loop
     event_loop evlp_;
 
-    // Protects hosts_;
+    // Protects hosts_ and wrp_
     std::mutex lock_;
 
     // Pipe write end
diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index b7132ba..bee18fb 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -293,16 +293,15 @@ void connector::add(const std::string &ip, int port, family f, int t)
     }
     auto h = std::make_tuple(ip, port, f);
 
+    // The pipe's write buffer is shared by the threads too
+    std::unique_lock<std::mutex> _(lock_);
+    if (hosts_.count(h))
     {
-        std::unique_lock<std::mutex> _(lock_);
-        if (hosts_.count(h))
-        {
-            hosts_[h] += t;
-        }
-        else
-        {
-            hosts_[h] = t;
-        }
+        hosts_[h] += t;
+    }
+    else
+    {
+        hosts_[h] = t;
     }
 
     wrp_->wbuffer().put_string("0");
-- 
2.43.0


From b421a6bcd36de4dac627ca2f93d5485a4daeba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 51/62] fix: reactor: shutdown of a server or client that was
 not run or is shut down already does nothing

---
 src/include/cppev/tcp.h |  5 +++++
 src/lib/tcp.cc          | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/include/cppev/tcp.h b/src/include/cppev/tcp.h
index 9413dfc..9cbb02b 100644
--- a/src/include/cppev/tcp.h
+++ b/src/include/cppev/tcp.h
@@ -316,6 +316,8 @@ private:
     // Listening threads
     std::vector<std::unique_ptr<acceptor>> acpts_;
 
+    // Whether the threads have been started and not been joined
+    bool running_ = false;
 };
 
 
@@ -368,6 +370,9 @@ private:
 
     // Connecting threads
     std::vector<std::unique_ptr<connector>> conts_;
+
+    // Whether the threads have been started and not been joined
+    bool running_ = false;
 };
 
 }   // namespace reactor
diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index bee18fb..62ca2fe 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -415,6 +415,7 @@ void tcp_server::listen_unix(const std::string &path, bool remove)
 void tcp_server::run()
 {
     ignore_signal(SIGPIPE);
+    running_ = true;
     tp_.run();
     for (auto &acpt : acpts_)
     {
@@ -424,6 +425,12 @@ void tcp_server::run()
 
 void tcp_server::shutdown()
 {
+    // There's nothing to join unless it has been run, and only once
+    if (!running_)
+    {
+        return;
+    }
+    running_ = false;
     for (auto &acpt : acpts_)
     {
         acpt->shutdown();
@@ -496,6 +503,7 @@ void tcp_client::add_unix(const std::string &path, int t)
 void tcp_client::run()
 {
     ignore_signal(SIGPIPE);
+    running_ = true;
     tp_.run();
     for (auto &cont : conts_)
     {
@@ -505,6 +513,12 @@ void tcp_client::run()
 
 void tcp_client::shutdown()
 {
+    // There's nothing to join unless it has been run, and only once
+    if (!running_)
+    {
+        return;
+    }
+    running_ = false;
     for (auto &cont : conts_)
     {
         cont->shutdown();
-- 
2.43.0


From 93683a09ad31e533053929ecbd62fb76a367c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 52/62] fix: lock the handler table of an event loop when its
 load is asked for, other threads do while it changes

---
 src/include/cppev/event_loop.h | 4 +++-
 src/lib/tcp.cc                 | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 6beda25..b261623 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -69,6 +69,8 @@ public:
 
     int ev_loads() const noexcept
     {
+        // Asked by the threads that register to the event loops of others
+        std::unique_lock<std::mutex> lock(lock_);
         return fds_.size();
     }
 
@@ -116,7 +118,7 @@ public:
 
 private:
     // Used for registering callback for event loop
-    std::mutex lock_;
+    mutable std::mutex lock_;
 
     // Event watcher fd
     int ev_fd_;
diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 62ca2fe..b96fa23 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -23,11 +23,12 @@ event_loop *tp_shared_data::minloads_get_evlp()
     event_loop *minloads_evlp = nullptr;
     for (auto evlp : evls)
     {
-        // This is not thread safe but it's okay
-        if (evlp->ev_loads() < minloads)
+        // The loads may change meanwhile but it's okay
+        int loads = evlp->ev_loads();
+        if (loads < minloads)
         {
             minloads_evlp = evlp;
-            minloads = evlp->ev_loads();
+            minloads = loads;
         }
     }
     return minloads_evlp;
-- 
2.43.0


From 60dd3bed109130c64b601a91222cadb28a7e8134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 53/62] fix: reactor: keep a listening socket only if it could
 be set up, run() took the one that failed

---
 src/lib/tcp.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index b96fa23..15fb645 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -403,14 +403,18 @@ tcp_server::tcp_server(int thr_num, void *external_data)
 
 void tcp_server::listen(int port, family f, const char *ip)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen(port, f, ip);
+    // Only an acceptor that listens can be run
+    std::unique_ptr<acceptor> acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen(port, f, ip);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::listen_unix(const std::string &path, bool remove)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen_unix(path, remove);
+    // Only an acceptor that listens can be run
+    std::unique_ptr<acceptor> acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen_unix(path, remove);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::run()
-- 
2.43.0


From 314a960b6e2990c82c3b4bd08b20ce986f849a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 54/62] fix: buffer: growing beyond a gigabyte does not
 overflow the capacity

---
 src/include/cppev/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index 25d5765..5bc29d7 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -1,6 +1,7 @@
 #ifndef _buffer_h_6C0224787A17_
 #define _buffer_h_6C0224787A17_
 
+#include <climits>
 #include <utility>
 #include <memory>
 #include <cstring>
@@ -115,7 +116,8 @@ public:
         }
         while(cap_ < cap)
         {
-            cap_ *= 2;
+            // Doubling must not leave the range of int
+            cap_ = cap_ > INT_MAX / 2 ? cap : cap_ * 2;
         }
         std::unique_ptr<char[]> nbuffer = std::unique_ptr<char[]>(new char[cap_]);
         memset(nbuffer.get(), 0, cap_);
-- 
2.43.0


From 8e6a8406374f0fc2ad7be4d30349cef54d22144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 55/62] fix: event_loop::fd_register leaves no handler behind
 when the descriptor cannot be activated

---
 src/lib/event_loop_epoll.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 6e0d65b..878ba2a 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -87,24 +87,24 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
     }
     log::info << log::endl;
 #endif  // CPPEV_DEBUG
-    iop->set_evlp(*this);
-    if (handler)
-    {
-        std::unique_lock<std::mutex> lock(lock_);
-        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
-    }
+    // An event that is ready at once is not dispatched before the lock is released
+    std::unique_lock<std::mutex> lock(lock_);
     if (activate)
     {
         struct epoll_event ev;
         ev.data.fd = iop->fd();
         ev.events = fd_map_to_sys(ev_type);
-        std::unique_lock<std::mutex> lock(lock_);
         if (epoll_ctl(ev_fd_, EPOLL_CTL_ADD, iop->fd(), &ev) < 0)
         {
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
         }
         fd_events_[iop->fd()] = ev_type;
     }
+    iop->set_evlp(*this);
+    if (handler)
+    {
+        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
+    }
 }
 
 void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool deactivate)
-- 
2.43.0


From 0762377f3aa15e0c38188599c78bd86bd83f9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 56/62] fix: close descriptors no I/O object could be made of

---
 src/lib/nio.cc | 52 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index ac2e1f4..6c63d8c 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -56,6 +56,38 @@ void nio::set_io_block()
     }
 }
 
+// A descriptor that no object could be made of has no owner, so it is closed
+template <typename T, typename... Args>
+static std::shared_ptr<T> own_fd(int fd, Args... args)
+{
+    try
+    {
+        return std::make_shared<T>(fd, args...);
+    }
+    catch (...)
+    {
+        ::close(fd);
+        throw;
+    }
+}
+
+// The same for two descriptors
+static std::vector<std::shared_ptr<nstream>> own_fds(int fd0, int fd1)
+{
+    std::vector<std::shared_ptr<nstream>> iopps;
+    try
+    {
+        iopps.push_back(own_fd<nstream>(fd0));
+    }
+    catch (...)
+    {
+        ::close(fd1);
+        throw;
+    }
+    iopps.push_back(own_fd<nstream>(fd1));
+    return iopps;
+}
+
 // Errors that end a connection without the opposite host closing it
 static bool is_connection_lost(int err)
 {
@@ -673,7 +705,7 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
         }
         else
         {
-            sockfds.emplace_back(new nsocktcp(sockfd, family_));
+            sockfds.push_back(own_fd<nsocktcp>(sockfd, family_));
             if (family_ == family::local)
             {
                 sockfds.back()->peer_ = peer_;
@@ -748,7 +780,7 @@ std::shared_ptr<nsocktcp> get_nsocktcp(family f)
     {
         throw_system_error("socket error");
     }
-    return std::make_shared<nsocktcp>(fd, f);
+    return own_fd<nsocktcp>(fd, f);
 }
 
 std::shared_ptr<nsockudp> get_nsockudp(family f)
@@ -758,7 +790,7 @@ std::shared_ptr<nsockudp> get_nsockudp(family f)
     {
         throw_system_error("socket error");
     }
-    std::shared_ptr<nsockudp> sock(new nsockudp(fd, f));
+    std::shared_ptr<nsockudp> sock = own_fd<nsockudp>(fd, f);
     sock->rbuffer().resize(sysconfig::udp_buffer_size);
     sock->wbuffer().resize(sysconfig::udp_buffer_size);
     return sock;
@@ -773,12 +805,7 @@ std::vector<std::shared_ptr<nstream>> get_pipes()
     {
         throw_system_error("pipe error");
     }
-    std::vector<std::shared_ptr<nstream>> pipes =
-    {
-        std::make_shared<nstream>(pfds[0]),
-        std::make_shared<nstream>(pfds[1]),
-    };
-    return pipes;
+    return own_fds(pfds[0], pfds[1]);
 }
 
 std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
@@ -800,12 +827,7 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
         ::close(fdr);
         throw_system_error("open error", err);
     }
-    std::vector<std::shared_ptr<nstream>> fifos =
-    {
-        std::make_shared<nstream>(fdr),
-        std::make_shared<nstream>(fdw),
-    };
-    return fifos;
+    return own_fds(fdr, fdw);
 }
 
 }   // namespace nio_factory
-- 
2.43.0


From 0389f3ab9656fd0daf2b4d2056884c8a50d8cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 57/62] fix: thread_wait_for_signal reports sigwait's own error

---
 src/lib/utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index ee570c8..e1f1c9b 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -191,9 +191,10 @@ void thread_wait_for_signal(int sig)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
 }
 
@@ -208,9 +209,10 @@ int thread_wait_for_signal(const std::vector<int> &sigs)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
     return ret_sig;
 }
-- 
2.43.0


From e5984c5cbb5ff57efb23937a163d4cae7fd2ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 58/62] fix: subp_open::communicate restores the signal mask
 when writing fails

---
 src/lib/subprocess.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 33b0b7e..55ba5b0 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -40,7 +40,15 @@ static void write_no_sigpipe(nstream &iop)
     bool was_pending = sigismember(&pending, SIGPIPE);
     pthread_sigmask(SIG_BLOCK, &pipe_set, &origin);
 
-    iop.write_all();
+    try
+    {
+        iop.write_all();
+    }
+    catch (...)
+    {
+        pthread_sigmask(SIG_SETMASK, &origin, nullptr);
+        throw;
+    }
 
     if (iop.eop())
     {
-- 
2.43.0


From 487c8850edad07cb6739d23d7d65f63e11dc2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 59/62] fix: event_loop: an iteration a handler leaves by
 throwing leaves no stale handlers behind

---
 src/lib/event_loop_epoll.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 878ba2a..805aae1 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -215,7 +215,16 @@ void event_loop::loop_once(int timeout)
                 continue;
             }
         }
-        (*std::get<2>(ev))(std::get<1>(ev));
+        try
+        {
+            (*std::get<2>(ev))(std::get<1>(ev));
+        }
+        catch (...)
+        {
+            // The next iteration finds again which of the rest are due
+            fd_cbs_ = decltype(fd_cbs_)();
+            throw;
+        }
     }
 
 }
-- 
2.43.0


From 631e842447f9950db7ff0add6fb9c99d964b1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 60/62] fix: buffer: a capacity below one is refused by an
 exception instead of ending the process

---
 src/include/cppev/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index 5bc29d7..2b097b7 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -25,7 +25,7 @@ public:
     {
     }
 
-    explicit buffer(int cap) noexcept
+    explicit buffer(int cap)
     : cap_(cap), start_(0), offset_(0)
     {
         if (cap_ < 1)
-- 
2.43.0


From ba0bbe66f0b13e524839a5602c66caf6f97f9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 61/62] fix: event_loop::fd_remove releases handlers without
 holding the lock

---
 src/lib/event_loop_epoll.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 805aae1..95087ac 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -8,6 +8,7 @@
 #include <tuple>
 #include <iostream>
 #include <thread>
+#include <vector>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
 #include <sys/epoll.h>
@@ -141,7 +142,14 @@ void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool dea
     }
     if (clean)
     {
+        // Released without the lock, since what a handler holds may use the event loop
+        std::vector<decltype(fds_)::mapped_type> removed;
         std::unique_lock<std::mutex> lock(lock_);
+        auto range = fds_.equal_range(iop->fd());
+        for (auto iter = range.first; iter != range.second; ++iter)
+        {
+            removed.push_back(iter->second);
+        }
         fds_.erase(iop->fd());
     }
 }
-- 
2.43.0


From be74997ef5b15506af0e6cbc8ed10ad1af89a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 62/62] fix: the task-queue pool releases a task as soon as it
 was run, without holding the lock

---
 src/include/cppev/thread_pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 97a75d0..e310f8f 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -195,6 +195,8 @@ public:
             }
             task_queue_->cond_.notify_all();
             handler();
+            // What the task holds is released now, and not while the lock is held
+            handler = nullptr;
         }
     }
 
-- 
2.43.0

