From 276b8894ef2473e595cbea5032f775d7c1d8b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 01/57] fix: do not notify a destroyed intrusive connection
 status

---
 include/bcl/IntrusiveConnection.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..62504fd 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -106,10 +106,10 @@ public:
   ~IntrusiveConnection() {
     if (!mStatus)
       return;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mReject = true;
-    }
+    // Notify under the lock: once mReject is visible to another thread, that
+    // thread is allowed to destroy the status.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
     mStatus->mSendEvent.notify_one();
   }
 
@@ -136,10 +136,12 @@ public:
     }
     if (Close) {
       {
+        // Notify under the lock: once mReject is visible to another thread,
+        // that thread is allowed to destroy the status.
         std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
         mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
       }
-      mStatus->mSendEvent.notify_one();
       mStatus = nullptr;
       return false;
     }
-- 
2.43.0


From 0404e707aceb9dc6d6fcab26bc1895d76c901a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 02/57] fix: close the replaced connection in move assignment
 of an intrusive connection

---
 include/bcl/IntrusiveConnection.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 62504fd..948a25f 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -98,8 +98,12 @@ public:
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
     if (this == &C)
       return *this;
+    // The connection which has been owned by this object is closed (and all
+    // its subsequent requests are rejected) when Tmp is destroyed.
+    IntrusiveConnection Tmp(mStatus);
     mStatus = C.mStatus;
     C.mStatus = nullptr;
+    return *this;
   }
 
   /// Destructor.
-- 
2.43.0


From 8a8505b5ab31877c1b56eac50e38242aa281b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 03/57] fix: reject every request which is received after the
 server has ended

---
 include/bcl/IntrusiveConnection.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 948a25f..eb6b368 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -205,10 +205,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -220,6 +216,11 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        if (*Reject) {
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          Buffer.pop();
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -240,10 +241,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          break;
-        }
       }
     });
   }
-- 
2.43.0


From 7fcd1150102a4abd42051d0a0465ca4d3c897c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 04/57] fix: do not leak a connection status if a server thread
 can not be started

---
 include/bcl/IntrusiveConnection.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index eb6b368..ab671ac 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -58,6 +58,7 @@
 
 #include "Socket.h"
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <sstream>
@@ -181,10 +182,13 @@ public:
   template<class Function, class... ArgsTy>
   static void connect(const bcl::Socket<std::string> *S,
       char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
+    auto CSOwner = std::unique_ptr<Status>(new Status);
+    // If a thread can not be started an exception is thrown, so the status
+    // must be destroyed (after a connection which refers to it).
     std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+      IntrusiveConnection(CSOwner.get()), std::forward<ArgsTy>(Args)...);
     Engine.detach();
+    auto *CS = CSOwner.release();
     auto *Reject = new bool(false);
     S->closed([Reject, CS](bool) {
       if (!*Reject) {
-- 
2.43.0


From 77fc1cbef00de09755083295a7d0c1d99b3b891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 05/57] fix: deliver received data with zero bytes completely

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..1bb52fa 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -219,7 +219,7 @@ public:
 
   int run() {
     bcl::createServer(this);
-    auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);
+    auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
       auto ReceivedInfo = receiveData(mConnectionFD, Buffer.get(), mBufferSize);
       if (!ReceivedInfo.second) {
@@ -231,10 +231,9 @@ public:
         closeSocket(true);
         return 0;
       }
-      Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From ffc0d1cfa839cb11e581e0bd78a10d4935199ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 06/57] fix: send the whole message if it is sent in parts

---
 lib/Socket/CSocket/CSocket.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 1bb52fa..dd2e3d3 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -109,7 +109,16 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) != SOCKET_ERROR;
+  // A part of a message may be sent only.
+  std::size_t Sent = 0;
+  do {
+    auto Size = send(S, Message.data() + Sent,
+      static_cast<int>(Message.length() - Sent), 0);
+    if (Size == SOCKET_ERROR)
+      return false;
+    Sent += Size;
+  } while (Sent < Message.length());
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
@@ -173,7 +182,15 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+  // A part of a message may be sent only.
+  std::size_t Sent = 0;
+  do {
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, 0);
+    if (Size < 0)
+      return false;
+    Sent += Size;
+  } while (Sent < Message.length());
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From b39752a971b423db2ea6986744a9d8f366c7cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 07/57] fix: do not send anything after a failed message

---
 lib/Socket/CSocket/CSocket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index dd2e3d3..09379be 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -218,7 +218,9 @@ public:
      , mOn(on) {}
 
   void send(const std::string &Message) const override {
-    if (!sendData(mConnectionFD, Message)) {
+    // If a message has not been sent completely, it is not possible to send
+    // the next ones.
+    if (mState != State::Open || !sendData(mConnectionFD, Message)) {
       mOn(bcl::net::SocketStatus::SendError, mConnection);
       mState = State::OnClose;
     } else {
-- 
2.43.0


From 5d1c25c2f81393ba8571b2200ad6ebe3f982fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 08/57] fix: do not terminate a server if a client has closed a
 connection

---
 lib/Socket/CSocket/CSocket.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 09379be..b598f6f 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -131,6 +131,14 @@ static inline std::pair<std::size_t, bool> receiveData(SocketT S,
 #else
 using SocketT = int;
 
+// If a client has closed a connection, send() must fail instead of terminating
+// the whole server with SIGPIPE.
+#ifdef MSG_NOSIGNAL
+static constexpr int SendFlags = MSG_NOSIGNAL;
+#else
+static constexpr int SendFlags = 0;
+#endif
+
 struct AddressInfoT {
   int Domain;
   int Type;
@@ -185,7 +193,8 @@ static inline bool sendData(SocketT S, const std::string &Message) {
   // A part of a message may be sent only.
   std::size_t Sent = 0;
   do {
-    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, 0);
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent,
+      SendFlags);
     if (Size < 0)
       return false;
     Sent += Size;
-- 
2.43.0


From 581e275f264bff1de0e51ace26c173b1b4032a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 09/57] fix: repeat sending and receiving which are interrupted
 by a signal

---
 lib/Socket/CSocket/CSocket.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index b598f6f..102352b 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -29,6 +29,7 @@
 #include <bcl/CSocket.h>
 #include <bcl/utility.h>
 #include <cassert>
+#include <cerrno>
 #include <csignal>
 #include <chrono>
 #include <future>
@@ -195,8 +196,11 @@ static inline bool sendData(SocketT S, const std::string &Message) {
   do {
     auto Size = send(S, Message.data() + Sent, Message.length() - Sent,
       SendFlags);
-    if (Size < 0)
+    if (Size < 0) {
+      if (errno == EINTR)
+        continue;
       return false;
+    }
     Sent += Size;
   } while (Sent < Message.length());
   return true;
@@ -204,7 +208,10 @@ static inline bool sendData(SocketT S, const std::string &Message) {
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
     char *Buffer, std::size_t BufferSize) {
-  auto ReceivedSize = recv(S, Buffer, BufferSize, 0);
+  ssize_t ReceivedSize;
+  do {
+    ReceivedSize = recv(S, Buffer, BufferSize, 0);
+  } while (ReceivedSize < 0 && errno == EINTR);
   if (ReceivedSize < 0)
     return std::make_pair(0, false);
   return std::make_pair(ReceivedSize, true);
-- 
2.43.0


From 9b1a87ad7b18458e0f26395cb3af14de5d322ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 10/57] fix: do not abort a server if a descriptor of a closed
 connection is reused

---
 lib/Socket/CSocket/CSocket.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 102352b..93ab706 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -28,15 +28,14 @@
 
 #include <bcl/CSocket.h>
 #include <bcl/utility.h>
-#include <cassert>
 #include <cerrno>
 #include <csignal>
 #include <chrono>
 #include <future>
+#include <list>
 #include <string>
 #include <thread>
 #include <vector>
-#include <unordered_map>
 
 #if _WIN32
 # include <ws2tcpip.h>
@@ -362,7 +361,9 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     return;
   }
   on(net::SocketStatus::Listen, Connection);
-  std::unordered_map<SocketT, std::future<int>> ActiveSockets;
+  // Note that a descriptor can not identify a connection, because it may be
+  // reused before a thread which maintains a closed connection is finished.
+  std::list<std::future<int>> ActiveSockets;
   if (ConnectionMaxNumber == 0 || ConnectionMaxNumber > ActiveSockets.max_size())
     ConnectionMaxNumber = ActiveSockets.max_size();
   auto engine =
@@ -374,7 +375,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
   auto sanitizeConnections = [&ActiveSockets]() {
     auto Size = ActiveSockets.size();
     for (auto I = ActiveSockets.begin(), EI = ActiveSockets.end(); I != EI;) {
-      auto Status = I->second.wait_for(std::chrono::seconds(0));
+      auto Status = I->wait_for(std::chrono::seconds(0));
       if (Status == std::future_status::ready)
         I = ActiveSockets.erase(I);
       else
@@ -386,7 +387,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     if (ActiveSockets.size() == ConnectionMaxNumber) {
       while (!sanitizeConnections())
         std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else if (ActiveSockets.size() > ConnectionMaxNumber / 2) {
+    } else {
       sanitizeConnections();
     }
     sockaddr_in ClientAddr;
@@ -409,14 +410,8 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
-    auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
-      std::forward_as_tuple(ConnectionFD),
-      std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
-    EngineItr->second = std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection));
+    ActiveSockets.push_back(std::async(std::launch::async,
+      engine, ConnectionFD, std::move(NewConnection)));
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 8bd3cae3127b13f9bf6758528c9f2220517d900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 11/57] fix: keep serving if a thread for a connection can not
 be started

---
 lib/Socket/CSocket/CSocket.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 93ab706..2d8d1e9 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -34,6 +34,7 @@
 #include <future>
 #include <list>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -410,8 +411,14 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
-    ActiveSockets.push_back(std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection)));
+    try {
+      ActiveSockets.push_back(std::async(std::launch::async,
+        engine, ConnectionFD, NewConnection));
+    } catch (const std::system_error &) {
+      // It is not possible to start a thread to maintain this connection.
+      on(net::SocketStatus::UnknownError, NewConnection);
+      closeAndLog(ConnectionFD, NewConnection);
+    }
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 087a42040784219ddf1f1b4551683c25d312b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 12/57] fix: close a connection if an exception ends its
 maintenance

---
 lib/Socket/CSocket/CSocket.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 2d8d1e9..c669a8e 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -253,6 +253,19 @@ public:
   }
 
   int run() {
+    try {
+      return serve();
+    } catch (...) {
+      // Release the connection if it can not be maintained any more.
+      if (mState != State::Closed)
+        closeSocket(false);
+      return 1;
+    }
+  }
+
+  std::string Data;
+ private:
+  int serve() {
     bcl::createServer(this);
     auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
@@ -275,8 +288,6 @@ public:
       }
     }
   }
-  std::string Data;
- private:
   void closeSocket(bool IsOk) const {
     mState = State::Closed;
     if (!::closeSocket(mConnectionFD)) {
-- 
2.43.0


From e686bfbfc2f77bb73b5d6680872cae6e43c41798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 13/57] fix: release strings of diagnostics as arrays

---
 include/bcl/Diagnostic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..fc89ce2 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -37,7 +37,7 @@ namespace bcl {
 ///
 /// All diagnostics are represented as a character string.
 class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
 
 public:
   typedef const char * value_type;
@@ -209,11 +209,11 @@ public:
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
     return true;
   }
 private:
-  std::unique_ptr<const char> mKind;
+  std::unique_ptr<const char[]> mKind;
   Collection mDiagnostics;
   size_type mInternalError = 0;
 };
-- 
2.43.0


From d2a5a1b242bbb8b344d5d78527b4c12c2efd48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 14/57] fix: do not leak a diagnostic which can not be inserted

---
 include/bcl/Diagnostic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index fc89ce2..b9ed713 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -203,13 +203,14 @@ public:
       return false;
     }
     auto Size = PreSize + ErrSize + 1;
-    char *Buf = new char[Size];
+    std::unique_ptr<char[]> Str(new char[Size]);
+    char *Buf = Str.get();
     if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
         std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
+    mDiagnostics.push_back(std::move(Str));
     return true;
   }
 private:
-- 
2.43.0


From 4fa472aacdfce05d4101587520f010cf164e051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 15/57] fix: close the replaced target file in move assignment
 of a redirection

---
 include/bcl/RedirectIO.h | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..3e72bed 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -130,21 +130,24 @@ public:
 
   /// Destructor closes a target file but redirected descriptor stays open and
   /// redirection is still performed.
-  ~RedirectIO() {
-    // Note that when move operation is executed destructor also called,
-    // to determine this case let us use mayRedirected().
-    // This is possible because mErrors will be unset when move is performed.
-    if (!mayRedirected() || !mFile)
-      return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
-    mFile = nullptr;
-  }
+  ~RedirectIO() { close(); }
 
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
   RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+  RedirectIO & operator=(RedirectIO &&Other) {
+    if (this == &Other)
+      return *this;
+    // Do not lose a target file which is replaced.
+    close();
+    mErrors = std::move(Other.mErrors);
+    mFromHandle = Other.mFromHandle;
+    mToName = std::move(Other.mToName);
+    mFile = Other.mFile;
+    mDiffPos = Other.mDiffPos;
+    mDiffStart = Other.mDiffStart;
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
@@ -242,6 +245,18 @@ public:
   }
 
 private:
+  /// Closes a target file if it is owned by this object.
+  void close() {
+    // Note that when move operation is executed destructor also called,
+    // to determine this case let us use mayRedirected().
+    // This is possible because mErrors will be unset when move is performed.
+    if (!mayRedirected() || !mFile)
+      return;
+    if (fclose(mFile) != 0)
+      storeErrNo("fclose");
+    mFile = nullptr;
+  }
+
   /// Stores description of error ErrNos to the errors() container.
   ///
   /// \param [in] Number of error. This must be one of possible errno values.
-- 
2.43.0


From 4f4053b9140f95c77b70a8dfa7a39d278c1a8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:20 +0000
Subject: [PATCH 16/57] fix: close a target file once if a redirection fails

---
 include/bcl/RedirectIO.h | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 3e72bed..8f29276 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -97,11 +97,7 @@ public:
       return;
     }
     if (dup2(fileno(mFile), mFromHandle) == -1) {
-      storeErrNo("dup2");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      closeAndStoreErrNo("dup2");
       return;
     }
     if (M == Mode::Append) {
@@ -109,21 +105,13 @@ public:
       // otherwise a result of ftell() points to the beginning of the file.
       while (fgetc(mFile) != EOF);
       if (!std::feof(mFile)) {
-        storeErrNo("fgetc");
-        if (fclose(mFile) != 0)
-          storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        closeAndStoreErrNo("fgetc");
         return;
       }
     }
     mDiffStart = mDiffPos = std::ftell(mFile);
     if (mDiffPos == -1) {
-      storeErrNo("ftell");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      closeAndStoreErrNo("ftell");
       return;
     }
   }
@@ -252,9 +240,24 @@ private:
     // This is possible because mErrors will be unset when move is performed.
     if (!mayRedirected() || !mFile)
       return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
+    // Nobody is able to obtain errors after that, so do not store them.
+    fclose(mFile);
+    mFile = nullptr;
+  }
+
+  /// Closes a target file and stores description of error available from errno
+  /// macros to the errors() container.
+  ///
+  /// Note that a stream must not be used even if it has not been closed
+  /// successfully.
+  /// \param [in] Op This is an operation which produces an error.
+  void closeAndStoreErrNo(const char *Op) {
+    auto ErrNo = errno;
+    auto CloseErrNo = fclose(mFile) != 0 ? errno : 0;
     mFile = nullptr;
+    storeErrNo(ErrNo, Op);
+    if (CloseErrNo != 0)
+      storeErrNo(CloseErrNo, "fclose");
   }
 
   /// Stores description of error ErrNos to the errors() container.
-- 
2.43.0


From 00688562fee9e77719c648dda24f25c2982cfb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 17/57] fix: do not lose zero bytes in the difference of a
 redirected file

---
 include/bcl/RedirectIO.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 8f29276..65a1c3c 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -204,12 +204,12 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+      Str.append(Buf, Size);
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From 36f2db9ba6f5e46085d4470c8bc1cd17c5c41ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 18/57] fix: mark the actual position of a redirected file

---
 include/bcl/RedirectIO.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 65a1c3c..4fe9e44 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -224,11 +224,18 @@ public:
   /// Set position to perform diff() comparison to a current position.
   bool setDiffPos() {
     assert(mFile && "File must not be null!");
-    mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
+    // The position is shared with the redirected descriptor, so it is necessary
+    // to discard a position which is known to the stream.
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
       storeErrNo("ftell");
       return false;
     }
+    mDiffPos = Pos;
     return true;
   }
 
-- 
2.43.0


From 866e66d35199095f5b070ede39b0dd9e217bd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 19/57] fix: do not move the position of redirected output to
 obtain a difference

---
 include/bcl/RedirectIO.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 4fe9e44..cc74316 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -195,6 +195,7 @@ public:
     assert(mFile && "File must not be null!");
     if (!isDiff())
       return "";
+#if defined(_MSC_VER) || defined(__CYGWIN__)
     auto Pos = std::ftell(mFile);
     if (Pos == -1) {
       storeErrNo("ftell");
@@ -215,6 +216,23 @@ public:
       return "";
     }
     return Str;
+#else
+    // The position is shared with the redirected descriptor, so do not move it.
+    // Otherwise, data which are being written may be lost or overwritten.
+    char Buf[4096];
+    std::string Str;
+    for (;;) {
+      auto Size = pread(fileno(mFile), Buf, sizeof(Buf), mDiffPos + Str.size());
+      if (Size == 0)
+        return Str;
+      if (Size > 0) {
+        Str.append(Buf, Size);
+      } else if (errno != EINTR) {
+        storeErrNo("pread");
+        return "";
+      }
+    }
+#endif
   }
 
   /// Reset position to perform diff() comparison. Position will the same
-- 
2.43.0


From d312e6f6e8c7fd140a04e8d59d08fb9cda8873c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 20/57] fix: make TransparentQueue::swap compile

A bit-field cannot be bound to std::swap() and the member is mValue.
---
 include/bcl/transparent_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..d17f285 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -177,7 +177,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        bool Tmp = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = Tmp;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -188,14 +190,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        std::swap(mQueue, TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From 325cdef73c01924ece551b8e9f8eedf91b3a53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 21/57] fix: release the old storage when a TransparentQueue is
 assigned

The assignments leaked the storage of the target, returned nothing, and
the copy one left the target without a storage if allocation failed.
---
 include/bcl/transparent_queue.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index d17f285..31f453b 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <cstring>
 #include <queue>
+#include <utility>
 
 namespace bcl {
 /// \brief Simple queue that store pointers.
@@ -67,12 +68,9 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    if (mIsSingle)
-      mValue = TQ.mValue;
-    else
-      mQueue = new Container(*TQ.mQueue);
+    TransparentQueue Tmp(TQ);
+    swap(Tmp);
+    return *this;
   }
 
   /// Move constructor.
@@ -85,11 +83,9 @@ public:
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
-    TQ.mIsSingle = true;
-    TQ.mIsEmpty = true;
+    TransparentQueue Tmp(std::move(TQ));
+    swap(Tmp);
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
-- 
2.43.0


From 6c760f635c5fbcc64f6c290fd1c7992a3899919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 22/57] fix: do not leave a stale pointer in a moved
 TransparentQueue

pop() on the empty queue returned it.
---
 include/bcl/transparent_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 31f453b..5ca94c8 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -79,6 +79,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
-- 
2.43.0


From 8705701e5dc4fc388bdf08d2824681a7c2ee219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 23/57] fix: keep TransparentQueue valid if allocation fails in
 push()

---
 include/bcl/transparent_queue.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 5ca94c8..066ed8e 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -28,6 +28,7 @@
 
 #include <assert.h>
 #include <cstring>
+#include <memory>
 #include <queue>
 #include <utility>
 
@@ -105,10 +106,12 @@ public:
         mValue = V;
         return;
       }
+      std::unique_ptr<Container> Queue(new Container());
+      Queue->push(mValue);
+      Queue->push(V);
       mIsSingle = false;
-      auto Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
+      mQueue = Queue.release();
+      return;
     }
     mQueue->push(V);
   }
-- 
2.43.0


From 5cc7b026b3fe94a607d4ab562a6460f1876b8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 24/57] fix: do not add a null element in
 TransparentQueue::emplace()

The first element of an empty queue was preceded with a null pointer, and
the queue became broken if allocation failed.
---
 include/bcl/transparent_queue.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 066ed8e..c28f804 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -155,13 +155,7 @@ public:
 
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
-    if (mIsSingle) {
-      mIsSingle = false;
-      Ty *Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
-    }
-    mQueue->emplace(Args...);
+    push(value_type(std::forward<ArgTy>(Args)...));
   }
 
   /// \brief Exchanges the contents of the queue with those of other.
-- 
2.43.0


From e0ae3614e638e6aeded08e8db27ed8611de10d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 25/57] fix: recognize escape sequences when the end of a JSON
 string is looked for

A string with an escaped quote ended at the quote, and a slash in front of
the closing quote made the string unterminated.
---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..b2761e9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -357,7 +357,7 @@ enum class Token : char {
   COMMA = ',',
   COLON = ':',
   QUOTE = '"',
-  ESCAPE = '/',
+  ESCAPE = '\\',
   DOT = '.',
   PLUS = '+',
   MINUS = '-',
@@ -468,7 +468,9 @@ public:
     mStart = mEnd = mNext;
     if (isQuote(mJSON[mNext])) {
       for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext;
+        } else if (isQuote(mJSON[mNext])) {
           mEnd = mNext++;
           mToken = Token::IDENTIFIER;
           return true;
-- 
2.43.0


From e400bb2484dabe2bf68d871b53957c023807176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 26/57] fix: do not read behind a JSON string which ends with
 an escape sequence

---
 include/bcl/Json.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b2761e9..38f7efd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1046,9 +1046,9 @@ template<> struct Traits<std::string> {
       return Str;
     std::string Res;
     Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end() - 1;
+    auto I = Str.begin(), EI = Str.end();
     while (I != EI) {
-      if (*I != '\\') {
+      if (*I != '\\' || I + 1 == EI) {
         Res += *I;
         ++I;
         continue;
@@ -1064,8 +1064,6 @@ template<> struct Traits<std::string> {
       }
       ++I;
     }
-    if (I == EI)
-      Res += Str.back();
     return Res;
   }
   inline static Position escape(String &JSON, Position Pos) {
-- 
2.43.0


From 88df093efee3516609378566742341befd41cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 27/57] fix: read and write characters in JSON

A character was written as the sum of its code and the codes of quotes,
and was read from the position of the document equal to its code. A failing
allocation terminated the process.
---
 include/bcl/Json.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 38f7efd..752442b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1100,17 +1100,22 @@ template<> struct Traits<std::string> {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
+    try {
+      std::string Str;
+      if (!Traits<std::string>::parse(Str, Lex) || Str.size() != 1)
+        return false;
+      Dest = Str.front();
+    }
+    catch (...) {
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    }
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
     auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
     Traits<std::string>::escape(JSON, I);
   }
 };
-- 
2.43.0


From f130274d427ea36bea1292f02f381706d5cf4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 28/57] fix: release arrays built from JSON with delete[]

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 752442b..e017006 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1310,7 +1310,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1323,7 +1323,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1386,7 +1386,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From 9f30ab3814c0da00128a6278d420e60d687726c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 29/57] fix: check the first token and the end of a JSON
 document

An empty or truncated document was read as an empty string, a comma at the
end was refused without an error and whitespace there was an error.
---
 include/bcl/Json.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index e017006..d6fb8f3 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -247,6 +247,7 @@
 #define JSON_ERROR_7 "uninitialized elements in array"
 #define JSON_ERROR_8 "target object type does not support duplicate of keys"
 #define JSON_ERROR_9 "illegal value"
+#define JSON_ERROR_10 "unexpected character '%c' end of string expected"
 #define JSON_ERROR(C) C, JSON_ERROR_##C
 
 #define JSON_OBJECT_BEGIN(Object_) \
@@ -557,6 +558,19 @@ public:
     return false;
   }
 
+  /// \brief Checks that only whitespace characters follow the current token.
+  ///
+  /// \return If there are other characters this method returns false and
+  /// add appropriate error in the errors collection.
+  bool checkEnd() {
+    auto Pos = mNext;
+    for (; Pos < mJSON.size() && std::isspace(mJSON[Pos]); ++Pos);
+    if (Pos >= mJSON.size())
+      return true;
+    mErrors.insert(JSON_ERROR(10), Pos, mJSON[Pos]);
+    return false;
+  }
+
   /// Skips all characters in a JSON string between braces or brackets,
   /// return false if some errors have been occurred.
   bool skipInternal() {
@@ -763,17 +777,11 @@ template<class... Objects> class Parser {
     /// Converts JSON string to a specified Ty.
     template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
       Lex.resetPosition();
-      Lex.goToNext();
-      if (!Traits<Ty>::parse(Obj, Lex)) {
+      if (!Lex.goToNext() || !Traits<Ty>::parse(Obj, Lex)) {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
-      if (Lex.next() < Lex.json().size()) {
-        Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
-        return false;
-      }
-      return true;
+      return Lex.checkEnd();
     }
 
     /// Creates functor to convert JSON string to a type with a specified name.
-- 
2.43.0


From 11d46bce9af8ab07a1622fd64d96f4c6a39cfc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 30/57] fix: do not take letters of a JSON document for other
 tokens

'n', 'i' and 'k' were treated as a number, an identifier and a keyword.
---
 include/bcl/Json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index d6fb8f3..597576e 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -516,7 +516,9 @@ public:
         return true;
     }
     mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
+    // Letters are used to encode tokens which have already been processed.
+    if (!std::isalpha(mJSON[mStart]))
+      mToken = static_cast<Token>(mJSON[mStart]);
     ++mNext;
     return true;
   }
-- 
2.43.0


From 27e5c0df76e2a24c5f0d2a914a800e7f6f59532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 31/57] fix: do not read a bracket or a delimiter of JSON as a
 string

---
 include/bcl/Json.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 597576e..2bc8968 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1091,6 +1091,8 @@ template<> struct Traits<std::string> {
   }
   inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
     try {
+      if (!Lex.checkValue())
+        return false;
       auto Value = Lex.discardQuote();
       Dest = unescape(
         Lex.json().substr(Value.first, Value.second - Value.first + 1));
@@ -1325,6 +1327,8 @@ template<> struct Traits<char *> {
       }
     } else {
       try {
+        if (!Lex.checkValue())
+          return false;
         auto Value = Lex.discardQuote();
         auto Unescaped = Traits<std::string>::unescape(
           Lex.json().substr(Value.first, Value.second - Value.first + 1));
-- 
2.43.0


From b4cda217d6f626eaff8cca8026ff72f094198064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 32/57] fix: refuse a JSON map if its key cannot be converted

The key was ignored, for example, when allocation failed, and the value was
stored under an arbitrary key.
---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 2bc8968..99a6013 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1579,7 +1579,8 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    if (!Traits<KeyTy>::parse(KeyValue, Lex))
+      return false;
     Lex.restorePosition();
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
@@ -1632,7 +1633,8 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    if (!Traits<KeyTy>::parse(KeyValue, Lex))
+      return false;
     Lex.restorePosition();
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
-- 
2.43.0


From 44e44c0b071b7bdf1b5d0411b4841267d342323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 33/57] fix: refuse an optional JSON value which cannot be
 converted

An arbitrary value was stored instead. An optional string "null" was lost.
---
 include/bcl/Json.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 99a6013..075ca92 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1866,16 +1866,21 @@ template<class T> struct Traits<std::optional<T>> {
     "Underlining type must be copy assignable!");
   static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
     try {
-      std::string Str;
-      if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          Traits<std::string>::parse(Str, Lex) &&
-              Str == toString(Keyword::NO_VALUE)) {
+      if (Lex.isKeyword(Keyword::NO_VALUE)) {
         Dest.reset();
-      } else {
-        T Tmp;
-        Traits<T>::parse(Tmp, Lex);
+        return true;
+      }
+      bool IsIdentifier = Lex.is(Token::IDENTIFIER);
+      T Tmp;
+      if (Traits<T>::parse(Tmp, Lex)) {
         Dest = std::move(Tmp);
+        return true;
       }
+      std::string Str;
+      if (!IsIdentifier || !Traits<std::string>::parse(Str, Lex) ||
+          Str != toString(Keyword::NO_VALUE))
+        return false;
+      Dest.reset();
     }
     catch (...) {
       return false;
-- 
2.43.0


From 231e825d562dd425104ccb8ff85a010f620a77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 34/57] fix: refuse a JSON number which is too large for
 unsigned

---
 include/bcl/Json.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 075ca92..c15ee8f 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -228,6 +228,7 @@
 #include "Diagnostic.h"
 #include "utility.h"
 #include <cctype>
+#include <limits>
 #include <map>
 #include <memory>
 #include <optional>
@@ -1188,7 +1189,10 @@ template<> struct Traits<unsigned> {
     try {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
+      auto Value = std::stoul(Str);
+      if (Value > std::numeric_limits<unsigned>::max())
+        return false;
+      Dest = static_cast<unsigned>(Value);
     }
     catch (...) {
       return false;
-- 
2.43.0


From f153a24d289fee6c2b38206384f77b35608afbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 35/57] fix: find the name of a JSON object after compound
 values

A document without an appropriate name is also refused with an error now.
---
 include/bcl/Json.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index c15ee8f..46464a9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -795,6 +795,7 @@ template<class... Objects> class Parser {
     template<class Ty> void operator()() {
       if (Ty::name() != mName)
         return;
+      mIsFound = true;
       auto Obj = std::unique_ptr<Ty>(new Ty);
       if (!parse(*Obj, mLex))
         return;
@@ -806,8 +807,15 @@ template<class... Objects> class Parser {
       return std::move(mObject);
     }
 
+    /// Returns name of a type to which JSON string should be converted.
+    const Object::ObjectName & getName() const noexcept { return mName; }
+
+    /// Returns true if there is a type with an appropriate name.
+    bool isFound() const noexcept { return mIsFound; }
+
   private:
     Object::ObjectName mName;
+    bool mIsFound = false;
     Lexer &mLex;
     std::unique_ptr<Object> mObject;
   };
@@ -984,6 +992,8 @@ public:
     ParseFunctor F(
       mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
     ObjectTypeList::for_each_type(F);
+    if (!F.isFound())
+      mLex.errors().insert(JSON_ERROR(3), mNameStart, F.getName().c_str());
     return F.stealObject();
   }
 
@@ -1016,7 +1026,7 @@ private:
     if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
       return false;
     while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
+      if (!mLex.checkIdentifier())
         return false;
       bool IsName = (mLex.json().compare(
         mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
@@ -1030,13 +1040,15 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if (mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) {
+        if (!mLex.skipInternal())
+          return false;
+      } else if (!mLex.checkValue()) {
         return false;
+      }
       if (!mLex.goToNext())
         return false;
-      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
+      if (mLex.is(Token::RIGHT_BRACE))
         break;
       if (!mLex.checkSpecial(Token::COMMA))
         return false;
-- 
2.43.0


From f824f04f09d1c12402c90d29d5305fcdae9a4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 36/57] fix: read diagnostics with spaces from JSON and do not
 leak them

---
 include/bcl/Json.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 46464a9..2a82600 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1838,23 +1838,23 @@ template<> struct Traits<bcl::Diagnostic> {
   }
   inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
     std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
       return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
+    std::string Prefix(Dest.getKind());
+    Prefix += " C";
     std::size_t Code;
     std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
+    int Length = 0;
+    if (Msg.compare(0, Prefix.size(), Prefix) != 0 ||
+        std::sscanf(Msg.c_str() + Prefix.size(), "%zu(%ju):%n",
+          &Code, &Pos, &Length) != 2 ||
+        Length == 0 || Msg[Prefix.size() + Length] != ' ' ||
+        !Dest.insert(Code, "%s", Pos,
+          Msg.c_str() + Prefix.size() + Length + 1)) {
       Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
       return false;
     }
-    delete[]Kind;
-    delete[]Buf;
     return true;
   }
   inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-- 
2.43.0


From 415c508d8c66bc7618c74efd9a9614c67cd6e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 37/57] fix: refuse a JSON array with doubled indexes

Other elements of the array stayed uninitialized.
---
 include/bcl/Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 2a82600..81fde4d 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1785,6 +1785,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   Lex.storePosition();
   Position MaxIdx = 0;
   Position Count = 0;
+  std::set<Position> Indexes;
   Token Last;
   if (Lex.is(Token::LEFT_BRACKET))
     Last = Token::RIGHT_BRACKET;
@@ -1806,6 +1807,10 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
       unsigned long long Idx;
       if (!Traits<unsigned long long>::parse(Idx, Lex))
         return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(static_cast<Position>(Idx)).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
       MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
       if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
           !Lex.goToNext())
-- 
2.43.0


From 7b34e202e747338b18c02ce87bf290b066db9081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 38/57] fix: convert an index of a JSON array in the same way
 whenever it is read

An escape sequence in an index led to an unexpected exception.
---
 include/bcl/Json.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 81fde4d..b2a5815 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1366,8 +1366,8 @@ template<> struct Traits<char *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<char>::parse(Dest[Idx], Lex);
     } else {
       return Traits<char>::parse(Dest[Key.second], Lex);
@@ -1440,8 +1440,8 @@ template<class Ty> struct Traits<Ty *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1500,8 +1500,8 @@ struct Traits<std::vector<Ty, Allocator>> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
-- 
2.43.0


From 7c3ccb0807d9ebd1ee0be59a01ae8fbeebdb0f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 39/57] fix: send messages with zero bytes through the Node.js
 addon

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8023714..8300c22 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -70,7 +70,8 @@ public:
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
     Local<Value> Argv[Argc] = {
-        String::NewFromUtf8(mIsolate, Message.c_str()).ToLocalChecked()};
+        String::NewFromUtf8(mIsolate, Message.data(), NewStringType::kNormal,
+          static_cast<int>(Message.size())).ToLocalChecked()};
     Local<Context> Ctx = mIsolate->GetCurrentContext();
     Local<Function>::New(mIsolate, mSend)->Call(Ctx, Null(mIsolate), Argc, Argv);
   }
-- 
2.43.0


From fd68bb3ad6ebf9533c91a3748105cc50c1c22b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 40/57] fix: receive data with zero bytes in the Node.js addon
 and release it

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8300c22..2ba3bb1 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -118,12 +118,11 @@ private:
       return;
     }
     auto Data = Local<Uint8Array>::Cast(Args[0]);
-    auto DataUtf8 = new char [Data->ByteLength() + 1];
-    Data->CopyContents(DataUtf8, Data->ByteLength());
-    DataUtf8[Data->ByteLength()] = '\0';
+    std::string DataUtf8(Data->ByteLength(), '\0');
+    Data->CopyContents(&DataUtf8[0], DataUtf8.size());
     void *UserFunc = Local<External>::Cast(Args.Data())->Value();
     auto F = static_cast<ReceiveCallback *>(UserFunc);
-    (*F)(std::string(DataUtf8));
+    (*F)(DataUtf8);
   }
 
   /// This is a wrapper of a listener specified by a user, this is binded
-- 
2.43.0


From be8d6df098e5cf199ccadca914e5522095680099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 41/57] fix: release the JavaScript functions of a Node.js
 connection

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 2ba3bb1..49d399b 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -66,6 +66,12 @@ public:
   SocketImp(Isolate *I, Local<Function> Send, Local<Function> On) :
     mIsolate(I), mSend(I, Send), mOn(I, On) {}
 
+  /// Release JavaScript functions.
+  ~SocketImp() override {
+    mSend.Reset();
+    mOn.Reset();
+  }
+
   /// Send a message.
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
-- 
2.43.0


From 66f65f1c349e287788e3f933a476735c47ef1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 42/57] fix: do not abort if connect() of the Node.js addon
 raises an exception

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 49d399b..44c0ada 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -183,9 +183,9 @@ public:
     Local<Value> Argv[Argc] = { Args[0], Args[1] };
     Local<Function> Ctor = Local<Function>::New(CurrIsolate, mCtor);
     Local<Context> Ctx = CurrIsolate->GetCurrentContext();
-    Local<Object> Instance =
-      Ctor->NewInstance(Ctx, Argc, Argv).ToLocalChecked();
-    Args.GetReturnValue().Set(Instance);
+    Local<Object> Instance;
+    if (Ctor->NewInstance(Ctx, Argc, Argv).ToLocal(&Instance))
+      Args.GetReturnValue().Set(Instance);
   }
 
 private:
-- 
2.43.0


From 3ba55ff0bf93b02230018f0db212db461daf53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 43/57] fix: release the JavaScript listeners of a Node.js
 connection

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 44c0ada..6d434d8 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -86,11 +86,10 @@ public:
   /// invoked when some data are received.
   void receive(const ReceiveCallback &F) const override {
     mReceiveCallbacks.push(bcl::make_unique<ReceiveCallback>(F));
-    Local<FunctionTemplate> Tpl =
-      FunctionTemplate::New(mIsolate, receiveWrapper,
-        External::New(mIsolate, mReceiveCallbacks.top().get()));
     Local<Context> Ctx = mIsolate->GetCurrentContext();
-    Local<Function> JSF = Tpl->GetFunction(Ctx).ToLocalChecked();
+    // Note, that functions instantiated from a template are never released.
+    Local<Function> JSF = Function::New(Ctx, receiveWrapper,
+      External::New(mIsolate, mReceiveCallbacks.top().get())).ToLocalChecked();
     const unsigned Argc = 2;
     Local<Value> Argv[Argc] = {
         String::NewFromUtf8(mIsolate, "data").ToLocalChecked(), JSF};
@@ -101,11 +100,10 @@ public:
   /// invoked when some data are received.
   void closed(const ClosedCallback &F) const override {
     mClosedCallbacks.push(bcl::make_unique<ClosedCallback>(F));
-    Local<FunctionTemplate> Tpl =
-      FunctionTemplate::New(mIsolate, closedWrapper,
-        External::New(mIsolate, mClosedCallbacks.top().get()));
     Local<Context> Ctx = mIsolate->GetCurrentContext();
-    Local<Function> JSF = Tpl->GetFunction(Ctx).ToLocalChecked();
+    // Note, that functions instantiated from a template are never released.
+    Local<Function> JSF = Function::New(Ctx, closedWrapper,
+      External::New(mIsolate, mClosedCallbacks.top().get())).ToLocalChecked();
     const unsigned Argc = 2;
     Local<Value> Argv[Argc] = {
         String::NewFromUtf8(mIsolate, "close").ToLocalChecked(), JSF};
-- 
2.43.0


From 1b0a0e09d66b866bc59dadd27243c02a9ca2fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 44/57] fix: do not release a Node.js connection before its
 closed listeners

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 6d434d8..99b256b 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -196,7 +196,13 @@ private:
   /// Start execution of a server.
   static void startServer(const FunctionCallbackInfo<Value>& Args) {
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
-    C->mSocket->closed([C](bool){ C->Unref(); });
+    C->mSocket->closed([C](bool) {
+      // Other listeners of this event are invoked later and use the socket, so
+      // the connection must not be released before all of them have returned.
+      Isolate::GetCurrent()->EnqueueMicrotask([](void *Data) {
+        static_cast<Connection *>(Data)->Unref();
+      }, C);
+    });
     createServer(C->mSocket);
   }
 
-- 
2.43.0


From 0b2d74a7b3eeac2716ac2bf983497e6c6e6487ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 45/57] fix: skip a compound value of an unknown key when a
 JSON object is parsed

---
 include/bcl/Json.h | 59 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b2a5815..7efe752 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -577,22 +577,44 @@ public:
   /// Skips all characters in a JSON string between braces or brackets,
   /// return false if some errors have been occurred.
   bool skipInternal() {
-    Token Last;
-    if (is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
-    else if (checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
-    else
+    if (!is(Token::LEFT_BRACKET) && !checkSpecial(Token::LEFT_BRACE))
       return false;
-    int Level = 0;
-    while (goToNext()) {
-      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
-          Level-- == 0)
-        return checkSpecial(Last);
-      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
-        ++Level;
+    // Closing tokens of compound values which have not been finished yet.
+    std::stack<Token> Last;
+    for (;;) {
+      // The current token is the first token of a value.
+      bool IsFinished = true;
+      if (is(Token::LEFT_BRACKET) || is(Token::LEFT_BRACE)) {
+        Last.push(is(Token::LEFT_BRACKET) ?
+          Token::RIGHT_BRACKET : Token::RIGHT_BRACE);
+        if (!goToNext())
+          return false;
+        IsFinished = is(Last.top());
+        if (IsFinished)
+          Last.pop();
+      } else if (!checkValue()) {
+        return false;
+      }
+      // The current token is the last token of a value, or it starts the first
+      // element of a value which is not empty.
+      while (IsFinished) {
+        if (Last.empty())
+          return true;
+        if (!goToNext())
+          return false;
+        if (is(Last.top())) {
+          Last.pop();
+          continue;
+        }
+        if (!checkSpecial(Token::COMMA) || !goToNext())
+          return false;
+        IsFinished = false;
+      }
+      if (Last.top() == Token::RIGHT_BRACE &&
+          (!checkIdentifier() || !goToNext() || !checkSpecial(Token::COLON) ||
+           !goToNext()))
+        return false;
     }
-    return false;
   }
 
   /// Resets current lexer position.
@@ -1716,16 +1738,21 @@ public:
           mKey.first + 1, mKey.second - mKey.first - 1 ,
           CellTraits<CellKey>::name()) != 0)
       return;
+    mIsFound = true;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
   }
 
   /// Returns true if errors have been occurred during conversion.
   bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a cell with a specified key.
+  bool isFound() const noexcept { return mIsFound; }
 private:
   Lexer &mLex;
   std::pair<Position, Position> mKey;
   bool mHasError;
+  bool mIsFound = false;
 };
 
 /// This functor unparses JSON object represented as a bcl::StaticMap. It should
@@ -1770,6 +1797,10 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
+    // A compound value of an unknown key must be skipped up to its last token.
+    if (!Parse.isFound() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
+      return Lex.skipInternal();
     return !Parse.hasError();
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-- 
2.43.0


From 1746ed5bd8f8d1576958112361e2dd9677b5fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 46/57] fix: TraitSet::release() of a trait without description
 erased the end iterator

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..1daf246 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From aeca2b1717a7f32280d36420a895ffecc6be60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 47/57] fix: release descriptions owned by a TraitSet when
 another set is moved to it

---
 include/bcl/trait.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1daf246..9111e6c 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,16 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+  TraitSet & operator=(TraitSet &&From) {
+    if (this == &From)
+      return *this;
+    // Descriptions which are owned by this set must be released.
+    if (!mValues.empty())
+      mTD.for_each(ConflictsResolver(&mValues));
+    mValues = std::move(From.mValues);
+    mTD = std::move(From.mTD);
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From c6dc7226ef9f3ef3c6441948855e96ce94107a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 48/57] fix: do not change a TraitSet if a description cannot
 be stored

---
 include/bcl/trait.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 9111e6c..128cd36 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -773,10 +773,10 @@ public:
       I->second = reinterpret_cast<void *>(T);
       return;
     }
-    if (!mValues.empty())
-      mTD.template for_each_conflict<Trait>(ConflictsResolver(&mValues));
-    mTD.template set<Trait>();
+    // If insertion fails the set is not changed and it does not own T.
     mValues.insert(std::make_pair(Key, reinterpret_cast<void*>(T)));
+    mTD.template for_each_conflict<Trait>(ConflictsResolver(&mValues));
+    mTD.template set<Trait>();
   }
 
   /// \brief Returns description of a specified trait or nullptr.
-- 
2.43.0


From eaaafd8798bcb78ce40c9da7c4fe8fa8dce0d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 49/57] fix: move assignment of multidimensional arrays

---
 include/bcl/marray.h   | 4 ++++
 include/bcl/marray_f.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..7881428 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..bf549f3 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From 74a2a4f782c1d80dbffbba384a28314255b9d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 50/57] fix: do not allocate too small multidimensional array
 if its size overflows

---
 include/bcl/marray.h   | 13 +++++++++++--
 include/bcl/marray_f.h | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 7881428..7615441 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -32,6 +32,8 @@
 
 #include <bcl/utility.h>
 #include <array>
+#include <limits>
+#include <new>
 
 namespace bcl {
 template<typename Ty, std::size_t Size, typename marray>
@@ -70,15 +72,22 @@ template<typename Ty, std::size_t Size>
 class marray {
   template<typename T, std::size_t S, typename MA>
   friend class msubarray;
+  /// Multiply sizes, throw an exception if the result is too large.
+  static std::size_t multiply(std::size_t LHS, std::size_t RHS) {
+    if (RHS != 0 && LHS > std::numeric_limits<std::size_t>::max() / RHS)
+      throw std::bad_array_new_length();
+    return LHS * RHS;
+  }
+
   /// Allocate memory according to sizes stored in mDims.
   void allocate() {
     auto FullSize = mDims[Size - 1];
     mOffset[Size - 2] = mDims[Size - 1];
     for (int I = Size - 2; I > 0; --I) {
-      FullSize *= mDims[I];
+      FullSize = multiply(FullSize, mDims[I]);
       mOffset[I-1] = mOffset[I] * mDims[I];
     }
-    FullSize *= mDims[0];
+    FullSize = multiply(FullSize, mDims[0]);
     mData = new Ty [FullSize];
   }
 public:
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index bf549f3..272bb61 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -32,6 +32,8 @@
 
 #include <bcl/utility.h>
 #include <array>
+#include <limits>
+#include <new>
 
 namespace bcl {
 /// Represent a multidimensional array.
@@ -40,15 +42,22 @@ namespace bcl {
 /// \tparam Size Number of dimensions.
 template<class Ty, size_t Size>
 class marray_f {
+  /// Multiply sizes, throw an exception if the result is too large.
+  static std::size_t multiply(std::size_t LHS, std::size_t RHS) {
+    if (RHS != 0 && LHS > std::numeric_limits<std::size_t>::max() / RHS)
+      throw std::bad_array_new_length();
+    return LHS * RHS;
+  }
+
   /// Allocate memory according to sizes stored in mDims.
   void allocate() {
     auto FullSize = mDims[Size - 1];
     mOffset[Size - 2] = mDims[Size - 1];
     for (int I = Size - 2; I > 0; --I) {
-      FullSize *= mDims[I];
+      FullSize = multiply(FullSize, mDims[I]);
       mOffset[I-1] = mOffset[I] * mDims[I];
     }
-    FullSize *= mDims[0];
+    FullSize = multiply(FullSize, mDims[0]);
     mData = new Ty [FullSize];
   }
 
-- 
2.43.0


From ef77b6d22d7f3cf9c73e33d341411b5ac249321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 51/57] fix: functors which move or copy cells must be able to
 change their target

---
 include/bcl/cell.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..fd1fd48 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From 3c0f0a4f45da0454e29bbad2e5d3f2bcd9d9af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 52/57] fix: do not leak the state of a connection if connect()
 or a send fails

---
 include/bcl/IntrusiveConnection.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index ab671ac..8539e87 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -182,14 +182,13 @@ public:
   template<class Function, class... ArgsTy>
   static void connect(const bcl::Socket<std::string> *S,
       char Delimiter, Function &&F, ArgsTy&&... Args) {
+    // If it is not possible to listen to the socket or to start a thread an
+    // exception is thrown, so the status must be destroyed (after a connection
+    // which refers to it). Listeners do not use it until the thread is started.
     auto CSOwner = std::unique_ptr<Status>(new Status);
-    // If a thread can not be started an exception is thrown, so the status
-    // must be destroyed (after a connection which refers to it).
-    std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CSOwner.get()), std::forward<ArgsTy>(Args)...);
-    Engine.detach();
-    auto *CS = CSOwner.release();
-    auto *Reject = new bool(false);
+    auto RejectOwner = std::unique_ptr<bool>(new bool(true));
+    auto *CS = CSOwner.get();
+    auto *Reject = RejectOwner.get();
     S->closed([Reject, CS](bool) {
       if (!*Reject) {
         {
@@ -205,6 +204,7 @@ public:
       }
       delete Reject;
     });
+    RejectOwner.release();
     // It is not possible to store socket S in connection status CS, because
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
@@ -244,11 +244,18 @@ public:
           CS->mSendData.clear();
           CS->mIsSend = false;;
         }
-        S->send(Data + Delimiter);
+        // The status is not necessary anymore even if the response can not be
+        // sent.
         if (*Reject)
           delete CS;
+        S->send(Data + Delimiter);
       }
     });
+    std::thread Engine(std::forward<Function>(F),
+      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+    Engine.detach();
+    CSOwner.release();
+    *Reject = false;
   }
 
 private:
-- 
2.43.0


From 843f6c884f81c2ddf6d35dbd54220eb228359fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 53/57] fix: do not lose or invent a request when memory for it
 runs out

---
 include/bcl/IntrusiveConnection.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 8539e87..f3c3761 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -211,6 +211,8 @@ public:
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
+      // Do not lose requests silently if there is not enough memory for them.
+      IS.exceptions(std::stringstream::badbit);
       std::string Item;
       while (std::getline(IS, Item, Delimiter) && !IS.eof())
         Buffer.push(Item);
@@ -227,8 +229,8 @@ public:
         }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mIsReceive = true;
           CS->mReceiveData = Buffer.front();
+          CS->mIsReceive = true;
         }
         CS->mReceiveEvent.notify_one();
         Buffer.pop();
-- 
2.43.0


From 94ec1f8db15734f4fd9742f3521b1ff49b67a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 54/57] fix: a failing allocation must not stop the server or
 leak a connection

---
 lib/Socket/CSocket/CSocket.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index c669a8e..b2d6b75 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -381,7 +381,14 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
   auto engine =
     [BufferSize, &on, closeAndLog](
         SocketT ConnectionFD, net::Connection &&C) -> int {
-      auto Engine = bcl::make_unique<SocketImp>(ConnectionFD, C, BufferSize, on);
+      std::unique_ptr<SocketImp> Engine;
+      try {
+        Engine = bcl::make_unique<SocketImp>(ConnectionFD, C, BufferSize, on);
+      } catch (...) {
+        on(net::SocketStatus::UnknownError, C);
+        closeAndLog(ConnectionFD, C);
+        return 1;
+      }
       return Engine->run();
     };
   auto sanitizeConnections = [&ActiveSockets]() {
@@ -422,11 +429,15 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
+    auto Size = ActiveSockets.size();
     try {
-      ActiveSockets.push_back(std::async(std::launch::async,
-        engine, ConnectionFD, NewConnection));
-    } catch (const std::system_error &) {
+      ActiveSockets.emplace_back();
+      ActiveSockets.back() = std::async(std::launch::async,
+        engine, ConnectionFD, NewConnection);
+    } catch (...) {
       // It is not possible to start a thread to maintain this connection.
+      if (ActiveSockets.size() > Size)
+        ActiveSockets.pop_back();
       on(net::SocketStatus::UnknownError, NewConnection);
       closeAndLog(ConnectionFD, NewConnection);
     }
-- 
2.43.0


From 29a85e8fa7919870e9c0ab5c5834e9fcd04986fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 55/57] fix: write a vector all values of which are empty as
 valid JSON

---
 include/bcl/Json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7efe752..e3551c3 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1548,8 +1548,9 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        // There is no delimiter if all values are empty.
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From 4d6177bf2cfb5d100db494d5235e715dbd8cc60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 56/57] fix: keep redirection of a closed descriptor after the
 target file is closed

If the redirected descriptor had been closed before, fopen() opened the target
file with this descriptor, so the redirection ended when the target file was
closed (by the destructor, for example).
---
 include/bcl/RedirectIO.h | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index cc74316..f3ac35e 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -59,6 +59,7 @@
 #elif defined(__CYGWIN__)
 # include <io.h>
 #else
+# include <fcntl.h>
 # include <unistd.h>
 #endif
 
@@ -96,6 +97,8 @@ public:
       storeErrNo("fopen");
       return;
     }
+    if (!leaveDescriptor())
+      return;
     if (dup2(fileno(mFile), mFromHandle) == -1) {
       closeAndStoreErrNo("dup2");
       return;
@@ -258,6 +261,41 @@ public:
   }
 
 private:
+  /// \brief Moves a target file to another descriptor if it occupies From.
+  ///
+  /// If From (or another standard descriptor, which may be redirected later)
+  /// has been closed, the target file may be opened with the same descriptor.
+  /// In this case redirection would be stopped when the target file is closed.
+  /// \return True on success, otherwise the target file is closed.
+  bool leaveDescriptor() {
+#if !defined(_MSC_VER) && !defined(__CYGWIN__)
+    auto Handle = fileno(mFile);
+    if (Handle != mFromHandle && Handle > STDERR_FILENO)
+      return true;
+    auto NewHandle = fcntl(Handle, F_DUPFD,
+      (mFromHandle > STDERR_FILENO ? mFromHandle : STDERR_FILENO) + 1);
+    if (NewHandle == -1) {
+      closeAndStoreErrNo("fcntl");
+      return false;
+    }
+    // A mode is checked only, the file has already been opened.
+    auto *File = fdopen(NewHandle, "r+");
+    if (!File) {
+      auto ErrNo = errno;
+      ::close(NewHandle);
+      errno = ErrNo;
+      closeAndStoreErrNo("fdopen");
+      return false;
+    }
+    std::swap(mFile, File);
+    if (fclose(File) != 0) {
+      closeAndStoreErrNo("fclose");
+      return false;
+    }
+#endif
+    return true;
+  }
+
   /// Closes a target file if it is owned by this object.
   void close() {
     // Note that when move operation is executed destructor also called,
-- 
2.43.0


From a49e18221747f8d0bf2250aae752407daa37191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 57/57] fix: resolve the address of a server without the shared
 result of gethostbyname

Servers may be started in different threads at the same time. The result of
gethostbyname() is shared between threads, so a server could be bound to the
address of another one.
---
 lib/Socket/CSocket/CSocket.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index b2d6b75..ef7e942 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -31,6 +31,7 @@
 #include <cerrno>
 #include <csignal>
 #include <chrono>
+#include <cstring>
 #include <future>
 #include <list>
 #include <string>
@@ -163,11 +164,20 @@ static inline bool getAddressInfo(int Domain, int Type, int Protocol,
   if (Address.empty()) {
     Result.Address.sin_addr.s_addr = INADDR_ANY;
   } else {
-    auto Host = gethostbyname(Address.c_str());
-    if (!Host)
+    // Note that gethostbyname() must not be used, because servers may be started
+    // in different threads and its result is shared between them.
+    addrinfo Hints;
+    std::memset(&Hints, 0, sizeof(Hints));
+    Hints.ai_family = AF_INET;
+    Hints.ai_socktype = Type;
+    Hints.ai_protocol = Protocol;
+    addrinfo *Host = nullptr;
+    if (getaddrinfo(Address.c_str(), nullptr, &Hints, &Host) != 0)
       return false;
-    memmove(&Result.Address.sin_addr.s_addr,
-      Host->h_addr_list[0], Host->h_length);
+    std::memmove(&Result.Address.sin_addr,
+      &reinterpret_cast<sockaddr_in *>(Host->ai_addr)->sin_addr,
+      sizeof(Result.Address.sin_addr));
+    freeaddrinfo(Host);
   }
   return true;
 }
-- 
2.43.0

