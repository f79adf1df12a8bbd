From f27ab88f70ca37630b07b572de9c91a9ccf2fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 01/41] fix: announce the Error state only once when it was
 requested

---
 fairmq/StateMachine.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..eb9077d 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -211,11 +211,6 @@ struct Machine_ : public state_machine_def<Machine_>
             CallStateChangeCallbacks(fState);
             CallStateHandler(fState);
         }
-
-        if (fState == State::Error) {
-            LOG(trace) << "Device transitioned to error state";
-            throw StateMachine::ErrorStateException("Device transitioned to error state");
-        }
     }
 
     // replaces the default no-transition response.
@@ -411,4 +406,9 @@ void StateMachine::ProcessWork()
     fsm->ProcessWork();
 
     cod.disable();
+
+    if (fsm->fState == State::Error) {
+        LOG(trace) << "Device transitioned to error state";
+        throw ErrorStateException("Device transitioned to error state");
+    }
 }
-- 
2.43.0


From f7b0fc49294b7735d38d04e10325f9ed9c330b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 02/41] fix: do not hold the state mutex while announcing the
 Error state after an exception

---
 fairmq/StateMachine.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index eb9077d..5188e53 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -394,12 +394,14 @@ void StateMachine::ProcessWork()
 
     fair::mq::tools::CallOnDestruction cod([&](){
         LOG(debug) << "Exception caught in ProcessWork(), going to Error state";
+        // no other transition is accepted from here on
+        ChangeState(Transition::ErrorFound);
         {
             lock_guard<mutex> lock(fsm->fStateMtx);
             fsm->fState = State::Error;
-            fsm->CallStateChangeCallbacks(State::Error);
         }
-        ChangeState(Transition::ErrorFound);
+        // without holding the mutex, subscribers may use the state machine
+        fsm->CallStateChangeCallbacks(State::Error);
     });
 
     fsm->CallStateChangeCallbacks(State::Idle);
-- 
2.43.0


From a4e7cdc93be5aab2603165a9f2796caa6e100ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 03/41] fix: refuse transition requests in the Error state

---
 fairmq/StateMachine.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 5188e53..7754e3a 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -254,6 +254,10 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        if (transition != Transition::ErrorFound) {
+            // once in the Error state events are ignored without calling an action or no_transition
+            fsm->fLastTransitionResult = false;
+        }
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From 3829d7662b8ab1856e0804c1fc8977192b6ccdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 04/41] fix: wake threads waiting for a pending state even if
 it is taken over before they run

---
 fairmq/StateMachine.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 7754e3a..848644c 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -27,6 +27,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <chrono>
+#include <cstdint>
 #include <unordered_map>
 #include <mutex>
 
@@ -83,6 +84,7 @@ struct Machine_ : public state_machine_def<Machine_>
         , fNewState(State::Ok)
         , fLastTransitionResult(true)
         , fNewStatePending(false)
+        , fNumNewStates(0)
     {}
 
     // initial states
@@ -110,6 +112,7 @@ struct Machine_ : public state_machine_def<Machine_>
             fsm.fLastTransitionResult = true;
             fsm.CallNewTransitionCallbacks(e.Type());
             fsm.fNewStatePending = true;
+            ++fsm.fNumNewStates;
             fsm.fNewStatePendingCV.notify_all();
         }
     };
@@ -179,6 +182,7 @@ struct Machine_ : public state_machine_def<Machine_>
     mutex fStateMtx;
     mutex fSubscriptionsMtx;
     atomic<bool> fNewStatePending;
+    uint64_t fNumNewStates; // accepted requests so far, guarded by fStateMtx
     condition_variable fNewStatePendingCV;
 
     boost::signals2::signal<void(const State)> fStateChangeSignal;
@@ -383,13 +387,16 @@ void StateMachine::WaitForPendingState() const
 {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     unique_lock<mutex> lock(fsm->fStateMtx);
-    fsm->fNewStatePendingCV.wait(lock, [&]{ return static_cast<bool>(fsm->fNewStatePending); });
+    // the state may already be taken over again before this thread gets to run
+    const uint64_t num = fsm->fNumNewStates;
+    fsm->fNewStatePendingCV.wait(lock, [&]{ return fsm->fNewStatePending || fsm->fNumNewStates != num; });
 }
 bool StateMachine::WaitForPendingStateFor(int durationInMs) const
 {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     unique_lock<mutex> lock(fsm->fStateMtx);
-    return fsm->fNewStatePendingCV.wait_for(lock, std::chrono::milliseconds(durationInMs), [&]{ return static_cast<bool>(fsm->fNewStatePending); });
+    const uint64_t num = fsm->fNumNewStates;
+    return fsm->fNewStatePendingCV.wait_for(lock, std::chrono::milliseconds(durationInMs), [&]{ return fsm->fNewStatePending || fsm->fNumNewStates != num; });
 }
 
 void StateMachine::ProcessWork()
-- 
2.43.0


From fb0b8e6fa8a56adf38421ab42c03bbf74500d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 05/41] fix: report the Error state to threads waiting for a
 device state after an exception

---
 fairmq/Device.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.h b/fairmq/Device.h
index de99a41..0c21045 100644
--- a/fairmq/Device.h
+++ b/fairmq/Device.h
@@ -421,7 +421,18 @@ class Device
     void SetRawCmdLineArgs(const std::vector<std::string>& args) { fRawCmdLineArgs = args; }
     std::vector<std::string> GetRawCmdLineArgs() const { return fRawCmdLineArgs; }
 
-    void RunStateMachine() { fStateMachine.ProcessWork(); };
+    void RunStateMachine()
+    {
+        try {
+            fStateMachine.ProcessWork();
+        } catch (const StateMachine::ErrorStateException&) {
+            throw; // the Error state has been handled like any other
+        } catch (...) {
+            // an exception bypasses the state handler, threads waiting for a state have to learn of the Error state
+            fStateQueue.Push(State::Error);
+            throw;
+        }
+    }
 
     /// Wait for the supplied amount of time or for interruption.
     /// If interrupted, returns false, otherwise true.
-- 
2.43.0


From 0fa467ea865aaf0817bc3ba82c6ef5102f03ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 06/41] fix: notify string subscribers of the value written,
 even if the property is changed or deleted concurrently

---
 fairmq/ProgOptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..f1af2a1 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -145,7 +145,7 @@ class ProgOptions
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, PropertyHelper::GetPropertyInfo(Property(val)).first);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -275,7 +275,7 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, PropertyHelper::GetPropertyInfo(Property(val)).first);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From 1205a9b871f42fdb03db52b3665969acd7010b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 07/41] fix: wake every thread waiting for the release of
 device control

---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From bbf64809dd0cc9998022e60e696683abba1f98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 08/41] fix: release the previous buffer when a used shared
 memory message is received into, rebuilt or copied over

---
 fairmq/shmem/Message.h | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..c24e793 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -123,34 +123,29 @@ class Message final : public fair::mq::Message
 
     void Rebuild() override
     {
-        CloseMessage();
-        fQueued = false;
+        ReleaseBuffer();
     }
 
     void Rebuild(Alignment /* alignment */) override
     {
-        CloseMessage();
-        fQueued = false;
+        ReleaseBuffer();
     }
 
     void Rebuild(size_t size) override
     {
-        CloseMessage();
-        fQueued = false;
+        ReleaseBuffer();
         InitializeChunk(size);
     }
 
     void Rebuild(size_t size, Alignment alignment) override
     {
-        CloseMessage();
-        fQueued = false;
+        ReleaseBuffer();
         InitializeChunk(size, alignment.alignment);
     }
 
     void Rebuild(void* data, size_t size, fair::mq::FreeFn* ffn, void* hint = nullptr) override
     {
-        CloseMessage();
-        fQueued = false;
+        ReleaseBuffer();
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
@@ -265,14 +260,12 @@ class Message final : public fair::mq::Message
         const Message& otherMsg = static_cast<const Message&>(other);
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
-            CloseMessage();
+            ReleaseBuffer();
             return;
         }
 
         // if this msg is already initialized, close it first
-        if (fHandle >= 0) {
-            CloseMessage();
-        }
+        ReleaseBuffer();
 
         // increment ref count
         if (otherMsg.fManaged) { // msg in managed segment
@@ -297,6 +290,7 @@ class Message final : public fair::mq::Message
             } else { // if RefCount segment size is 0, store the ref count in the managed segment
                 if (otherMsg.fShared < 0) { // if UR msg is not yet shared
                     char* ptr = fManager.Allocate(2, 0);
+                    fSegmentId = fManager.GetSegmentId();
                     // point the fShared in the unmanaged region message to the refCount holder
                     otherMsg.fShared = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     // the message needs to be able to locate in which segment the refCount is stored
@@ -336,6 +330,8 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        // the message object may have been used before: release its previous buffer
+        ReleaseBuffer();
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
@@ -352,6 +348,7 @@ class Message final : public fair::mq::Message
             return fLocalPtr;
         }
         char* ptr = fManager.Allocate(size, alignment);
+        fSegmentId = fManager.GetSegmentId();
         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
         fSize = size;
         fLocalPtr = ShmHeader::UserPtr(ptr);
@@ -394,9 +391,16 @@ class Message final : public fair::mq::Message
                 }
             }
         }
+        // forget the buffer completely, the message object may be used again
         fHandle = -1;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHint = 0;
+        fShared = -1;
+        fRegionPtr = nullptr;
+        fRegionId = 0;
+        fManaged = true;
+        fQueued = false;
     }
 
     void ReleaseUnmanagedRegionBlock()
@@ -413,15 +417,23 @@ class Message final : public fair::mq::Message
     }
 
     void CloseMessage()
+    {
+        if (ReleaseBuffer()) {
+            fManager.DecrementMsgCounter();
+        }
+    }
+
+    bool ReleaseBuffer()
     {
         try {
             Deallocate();
-            fManager.DecrementMsgCounter();
+            return true;
         } catch (SharedMemoryError& sme) {
             LOG(error) << "error closing message: " << sme.what();
         } catch (boost::interprocess::lock_exception& le) {
             LOG(error) << "error closing message: " << le.what();
         }
+        return false;
     }
 };
 
-- 
2.43.0


From 4d4f445fa631b0fe52b576d039663d5bbfe5bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 09/41] fix: keep the buffer when the used size of a shared or
 region shared memory message is reduced

---
 fairmq/shmem/Message.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index c24e793..8fd5791 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -191,6 +191,11 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            // a buffer in an unmanaged region can not be resized, a buffer shared with other messages has to keep its size
+            if (!fManaged || GetRefCount() > 1) {
+                fSize = newSize;
+                return true;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
@@ -210,9 +215,10 @@ class Message final : public fair::mq::Message
                         }
                         char* ptr = fManager.Allocate(newSize, alignment.alignment);
                         char* userPtr = ShmHeader::UserPtr(ptr);
-                        std::memcpy(userPtr, fLocalPtr, newSize);
+                        std::memcpy(userPtr, ShmHeader::UserPtr(oldPtr), newSize);
                         fManager.Deallocate(fHandle, fSegmentId);
                         fLocalPtr = userPtr;
+                        fSegmentId = fManager.GetSegmentId();
                         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     }
                     fSize = newSize;
-- 
2.43.0


From 298eb9af176939ff13eb9611dcc14236c50b0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 10/41] fix: do not count an interrupted system call as a whole
 slice of the transfer timeout

---
 fairmq/shmem/Socket.h  |  8 ++++----
 fairmq/zeromq/Common.h | 38 +++++++++++++++++++++++++++++++++++---
 fairmq/zeromq/Socket.h |  8 ++++----
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..799af19 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -127,7 +127,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         MetaHeader meta{ shmMsg->fSize, shmMsg->fHint, shmMsg->fHandle, shmMsg->fShared, shmMsg->fRegionId, shmMsg->fSegmentId, shmMsg->fManaged };
 
@@ -165,7 +165,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         while (true) {
             Message* shmMsg = static_cast<Message*>(msg.get());
@@ -206,7 +206,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         // meta msg format: | n | MetaHeader 1 | ... | MetaHeader n | padded to fMetadataMsgSize |
         auto const n = msgVec.size();
@@ -266,7 +266,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         zmq::ZMsg zmqMsg;
 
diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 51d009b..800304b 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -8,6 +8,9 @@
 #ifndef FAIR_MQ_ZMQ_COMMON_H
 #define FAIR_MQ_ZMQ_COMMON_H
 
+#include <algorithm> // max
+#include <cerrno>
+#include <chrono>
 #include <fairlogger/Logger.h>
 #include <fairmq/Error.h>
 #include <fairmq/tools/Strings.h>
@@ -61,12 +64,41 @@ inline bool Connect(void* socket, const std::string& address, const std::string&
     return true;
 }
 
-inline bool ShouldRetry(int flags, int socketTimeout, int userTimeout, int& elapsed)
+// time in ms that a transfer with a (positive) user timeout has been waiting
+class Elapsed
+{
+  public:
+    explicit Elapsed(int userTimeout)
+    {
+        if (userTimeout > 0) {
+            fStart = std::chrono::steady_clock::now();
+        }
+    }
+
+    void Add(int socketTimeout) { fElapsed += socketTimeout; }
+    // an interrupted system call did not wait for the whole socket timeout
+    void Measure()
+    {
+        using namespace std::chrono;
+        fElapsed = std::max<int>(fElapsed, duration_cast<milliseconds>(steady_clock::now() - fStart).count());
+    }
+    int Get() const { return fElapsed; }
+
+  private:
+    std::chrono::steady_clock::time_point fStart;
+    int fElapsed = 0;
+};
+
+inline bool ShouldRetry(int flags, int socketTimeout, int userTimeout, Elapsed& elapsed)
 {
     if ((flags & ZMQ_DONTWAIT) == 0) {
         if (userTimeout > 0) {
-            elapsed += socketTimeout;
-            if (elapsed >= userTimeout) {
+            if (zmq_errno() == EINTR) {
+                elapsed.Measure();
+            } else {
+                elapsed.Add(socketTimeout);
+            }
+            if (elapsed.Get() >= userTimeout) {
                 return false;
             }
         }
diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..5578162 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -100,7 +100,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msg.get())->GetMessage());
 
@@ -130,7 +130,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         while (true) {
             int nbytes = zmq_msg_recv(static_cast<Message*>(msg.get())->GetMessage(), fSocket, flags);
@@ -165,7 +165,7 @@ class Socket final : public fair::mq::Socket
 
         // Sending vector typicaly handles more then one part
         if (vecSize > 1) {
-            int elapsed = 0;
+            zmq::Elapsed elapsed(timeout);
 
             while (true) {
                 int64_t totalSize = 0;
@@ -212,7 +212,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::Elapsed elapsed(timeout);
 
         while (true) {
             int64_t totalSize = 0;
-- 
2.43.0


From 7cc64444bde90c9edccdbe03416cd34f13b19fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 11/41] fix: poll only for the rest of the timeout after an
 interrupted system call

---
 fairmq/shmem/Poller.h  | 10 +++++++++-
 fairmq/zeromq/Poller.h | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Poller.h b/fairmq/shmem/Poller.h
index d37b864..8332ed5 100644
--- a/fairmq/shmem/Poller.h
+++ b/fairmq/shmem/Poller.h
@@ -14,6 +14,8 @@
 #include <fairmq/Poller.h>
 #include <fairmq/shmem/Socket.h>
 #include <fairmq/tools/Strings.h>
+#include <fairmq/zeromq/Common.h>   // for zmq::Elapsed
+#include <algorithm>   // max
 #include <unordered_map>
 #include <vector>
 #include <zmq.h>
@@ -122,13 +124,19 @@ class Poller final : public fair::mq::Poller
 
     void Poll(int timeout) override
     {
+        zmq::Elapsed elapsed(timeout);
+
         while (true) {
-            if (zmq_poll(fItems, fNumItems, timeout) < 0) {
+            if (zmq_poll(fItems, fNumItems, timeout > 0 ? std::max(timeout - elapsed.Get(), 0) : timeout) < 0) {
                 if (errno == ETERM) {
                     LOG(debug) << "polling exited, reason: " << zmq_strerror(errno);
                     return;
                 } else if (errno == EINTR) {
                     LOG(debug) << "polling interrupted by system call";
+                    // poll only for the rest of the timeout
+                    if (timeout > 0) {
+                        elapsed.Measure();
+                    }
                     continue;
                 } else {
                     LOG(error) << "polling failed, reason: " << zmq_strerror(errno);
diff --git a/fairmq/zeromq/Poller.h b/fairmq/zeromq/Poller.h
index bd708e9..2d4d6cc 100644
--- a/fairmq/zeromq/Poller.h
+++ b/fairmq/zeromq/Poller.h
@@ -14,6 +14,8 @@
 #include <fairmq/Poller.h>
 #include <fairmq/tools/Strings.h>
 #include <fairmq/zeromq/Socket.h>
+#include <fairmq/zeromq/Common.h>   // for zmq::Elapsed
+#include <algorithm>   // max
 #include <unordered_map>
 #include <vector>
 #include <zmq.h>
@@ -124,13 +126,19 @@ class Poller final : public fair::mq::Poller
 
     void Poll(int timeout) override
     {
+        zmq::Elapsed elapsed(timeout);
+
         while (true) {
-            if (zmq_poll(fItems, fNumItems, timeout) < 0) {
+            if (zmq_poll(fItems, fNumItems, timeout > 0 ? std::max(timeout - elapsed.Get(), 0) : timeout) < 0) {
                 if (errno == ETERM) {
                     LOG(debug) << "polling exited, reason: " << zmq_strerror(errno);
                     return;
                 } else if (errno == EINTR) {
                     LOG(debug) << "polling interrupted by system call";
+                    // poll only for the rest of the timeout
+                    if (timeout > 0) {
+                        elapsed.Measure();
+                    }
                     continue;
                 } else {
                     LOG(error) << "polling failed, reason: " << zmq_strerror(errno);
-- 
2.43.0


From e4a15e5ba6a093872b71814c47fcc20127a511b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 12/41] fix: report all locally released region blocks before a
 region is destroyed

The receiver of the acknowledgements could leave before the sender of the same
process had sent its last blocks, and the sender dropped blocks when the queue
was full while stopping.
---
 fairmq/shmem/UnmanagedRegion.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..427e5be 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -60,6 +60,8 @@ struct UnmanagedRegion
         , fRemoveOnDestruction(cfg.removeOnDestruction)
         , fLinger(cfg.linger)
         , fStopAcks(false)
+        , fStopAcksReceiver(false)
+        , fReceivingAcks(false)
         , fName(MakeShmName(shmId, "rg", cfg.id.value()))
         , fQueueName(MakeShmName(shmId, "rgq", cfg.id.value()))
         , fRefCountSegmentName(MakeShmName(shmId, "rrc", cfg.id.value()))
@@ -207,18 +209,9 @@ struct UnmanagedRegion
     ~UnmanagedRegion()
     {
         LOG(debug) << "~UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
-        fStopAcks = true;
-
-        if (fAcksSender.joinable()) {
-            fBlockSendCV.notify_one();
-            fAcksSender.join();
-        }
+        StopAcks();
 
         if (fControlling) {
-            if (fAcksReceiver.joinable()) {
-                fAcksReceiver.join();
-            }
-
             if (fRemoveOnDestruction) {
                 if (Monitor::RemoveObject(fName.c_str())) {
                     LOG(trace) << "Region '" << fName << "' destroyed.";
@@ -256,6 +249,8 @@ struct UnmanagedRegion
     bool fRemoveOnDestruction;
     uint32_t fLinger;
     std::atomic<bool> fStopAcks;
+    std::atomic<bool> fStopAcksReceiver;
+    std::atomic<bool> fReceivingAcks; // the acks receiver of this region runs in this process
     std::string fName;
     std::string fQueueName;
     std::string fRefCountSegmentName;
@@ -372,7 +367,7 @@ struct UnmanagedRegion
             }
 
             if (blocksToSend > 0) {
-                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0) && !fStopAcks) {
+                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0) && (!fStopAcks || fReceivingAcks)) {
                     // receiver slow? yield and try again...
                     std::this_thread::yield();
                 }
@@ -391,6 +386,7 @@ struct UnmanagedRegion
     void StartAckReceiver()
     {
         if (!fAcksReceiver.joinable()) {
+            fReceivingAcks = true;
             fAcksReceiver = std::thread(&UnmanagedRegion::ReceiveAcks, this);
         }
     }
@@ -405,7 +401,7 @@ struct UnmanagedRegion
         while (true) {
             uint32_t timeout = 100;
             bool leave = false;
-            if (fStopAcks) {
+            if (fStopAcksReceiver) {
                 timeout = fLinger;
                 leave = true;
             }
@@ -456,6 +452,9 @@ struct UnmanagedRegion
             fAcksSender.join();
         }
 
+        // stop receiving only after all local blocks have been sent
+        fStopAcksReceiver = true;
+
         if (fAcksReceiver.joinable()) {
             fAcksReceiver.join();
         }
-- 
2.43.0


From 94d6f33383931460455402fee0422b1ab96f713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 13/41] fix: do not hold locks while waiting for the ack
 threads of a region

RemoveRegion() joined the threads that run the callbacks with the session and
the region locks held: a callback using another region could dead-lock, and all
other uses of regions were blocked for up to the ack interval.
---
 fairmq/shmem/Manager.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..a39bf3e 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -433,10 +433,16 @@ class Manager
     void RemoveRegion(uint16_t id)
     {
         try {
-            boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
-            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-            fRegions.at(id)->StopAcks();
+            UnmanagedRegion* region = nullptr;
+            {
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                region = fRegions.at(id).get();
+            }
+            // wait for the ack threads without holding any locks, the callbacks may use other regions
+            region->StopAcks();
             {
+                boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
                 if (fRegions.at(id)->RemoveOnDestruction()) {
                     fShmRegions->at(id).fDestroyed = true;
                     (fEventCounter->fCount)++;
-- 
2.43.0


From 3a1a06b0ec539c9b51c67c14de5f51e5c8d1d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 14/41] fix: lock order in shmem Manager::GetRegion

It locked the local regions before the session mutex, CreateRegion() and
RemoveRegion() the other way round: opening one region while creating or
removing another could dead-lock and block the whole session.
---
 fairmq/shmem/Manager.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index a39bf3e..43d7133 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -397,15 +397,17 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
             RegionConfig cfg;
-            // get region info
+            // get region info (not under fLocalRegionsMtx, which is always locked after fShmMtx)
             {
                 boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
                 RegionInfo regionInfo = fShmRegions->at(id);
@@ -416,6 +418,11 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) { // opened by another thread in the meantime
+                return it->second.get();
+            }
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
-- 
2.43.0


From 6d18a56e5694ef0bc8bf804758326053b84a899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 15/41] fix: do not leave region blocks behind when stopping
 the ack sender

A block released between the last look at the list and the check of the stop
flag was never reported.
---
 fairmq/shmem/UnmanagedRegion.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 427e5be..ad2aa6c 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -351,6 +351,7 @@ struct UnmanagedRegion
         size_t blocksToSend = 0;
 
         while (true) {
+            bool stop = false;
             {
                 std::unique_lock<std::mutex> lock(fBlockMtx);
 
@@ -359,6 +360,9 @@ struct UnmanagedRegion
                     fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500));
                 }
 
+                // check this before looking for blocks, so that none is left when leaving
+                stop = fStopAcks;
+
                 // send whatever blocks we have
                 blocksToSend = std::min(fBlocksToFree.size(), fAckBunchSize);
 
@@ -373,7 +377,7 @@ struct UnmanagedRegion
                 }
                 // LOG(debug) << "Sent " << blocksToSend << " blocks.";
             } else { // blocksToSend == 0
-                if (fStopAcks) {
+                if (stop) {
                     break;
                 }
             }
-- 
2.43.0


From 17bbe88da0898d9ad10bd782114f664de71242f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 16/41] fix: do not lose the interrupt of a request accepted
 while the transports are being resumed

The state machine accepted the next transition request before the
preparation of the new state (which resumes the transports) was done. The
interrupt raised by such a request was then cleared by the preparation and
transfers stayed blocked although a transition was pending.
---
 fairmq/StateMachine.cxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 848644c..d246b29 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -202,8 +202,19 @@ struct Machine_ : public state_machine_def<Machine_>
 
                 fNewStatePendingCV.wait(lock, [this]{ return fNewStatePending.load(); });
 
-                LOG(state) << fState << " ---> " << fNewState;
-                fState = static_cast<State>(fNewState);
+                // The preparation runs before the next transition request can be accepted, so that
+                // it cannot undo the effects of the callbacks notified about that request. Only an
+                // error can be requested meanwhile, it is then prepared instead.
+                State newState;
+                do {
+                    newState = fNewState;
+                    lock.unlock();
+                    CallStatePrep(newState);
+                    lock.lock();
+                } while (newState != fNewState);
+
+                LOG(state) << fState << " ---> " << newState;
+                fState = newState;
                 fNewStatePending = false;
 
                 if (fState == State::Exiting || fState == State::Error) {
@@ -211,7 +222,6 @@ struct Machine_ : public state_machine_def<Machine_>
                 }
             }
 
-            CallStatePrep(fState);
             CallStateChangeCallbacks(fState);
             CallStateHandler(fState);
         }
-- 
2.43.0


From 9f25b6bcd74c8dde6b21402d03fa210ebb8522b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 17/41] fix: a Stop requested while Run() returns must not put
 the device into the error state

RunWrapper requested its own Stop after checking that no transition is
pending. If another thread requested one in between, the own request was
refused and the device went to the error state although the other request
had been accepted.
---
 fairmq/Device.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..49bc426 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -422,8 +422,9 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Stop);
+    // The request is refused if another transition has been requested in the meantime.
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
+        throw runtime_error(tools::ToString("Invalid transition: ", Transition::Stop));
     }
 
     PostRun();
-- 
2.43.0


From 63423e543707c8130fc6c8e8988981fde0cfc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 18/41] fix: forget the channels that were not attached when
 the device is reset

Resetting from Initialized or Bound left pointers to the destroyed channels
in the lists of channels to attach, the next Bind or Connect used them.
---
 fairmq/Device.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 49bc426..527fe1c 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -741,6 +741,9 @@ void Device::ResetWrapper()
 
     Reset();
 
+    // channels that have not been attached (yet) do not outlive the reset either
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From a52fe7e085bbf73b3b4658f2d38efdec3bd52843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:21 +0000
Subject: [PATCH 19/41] fix: report exceptions of data callbacks when several
 transports are polled

The polling threads let the exception of a callback escape, which terminated
the process. It is now rethrown by the thread that runs the device once all
polling threads have ended, which puts the device into the error state.
---
 fairmq/Device.cxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 527fe1c..376302f 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -510,16 +511,31 @@ void Device::HandleMultipleChannelInput()
 void Device::HandleMultipleTransportInput()
 {
     vector<thread> threads;
+    exception_ptr error; // first exception of any of the threads, guarded by fMultitransportMutex
 
     fMultitransportProceed = true;
 
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([&]() {
+            try {
+                PollForTransport(fTransports.at(i.first).get(), i.second);
+            } catch (...) {
+                lock_guard<mutex> lock(fMultitransportMutex);
+                fMultitransportProceed = false;
+                if (!error) {
+                    error = current_exception();
+                }
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (error) {
+        rethrow_exception(error);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
-- 
2.43.0


From a7c9e1dead7316e4d278a07882e2d545b29ffb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 20/41] fix: use a unique address for every zeromq socket
 monitor

---
 fairmq/zeromq/Common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 800304b..d341cb7 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -8,6 +8,7 @@
 #ifndef FAIR_MQ_ZMQ_COMMON_H
 #define FAIR_MQ_ZMQ_COMMON_H
 
+#include <atomic>
 #include <algorithm> // max
 #include <cerrno>
 #include <chrono>
@@ -164,7 +165,10 @@ inline auto makeMonitorSocket(void* zmqCtx, void* socketToMonitor, std::string_v
         return nullptr;
     }
 
-    auto const address(tools::ToString("inproc://", id));
+    // The address has to be unique, the monitor of a previous socket with the same id (e.g. from an
+    // earlier attempt to attach a channel) may still occupy its address.
+    static std::atomic<unsigned long> numMonitors(0);
+    auto const address(tools::ToString("inproc://", id, "#", ++numMonitors));
     {   // Create writing monitor socket on socket to be monitored and subscribe
         // to all relevant events needed to compute connected peers
         // from http://api.zeromq.org/master:zmq-socket-monitor:
-- 
2.43.0


From aab430eb8289a86d3129cced3060f6397b3da34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 21/41] fix: Multiplier creates the copies with the transport
 of the payload

---
 fairmq/devices/Multiplier.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/devices/Multiplier.h b/fairmq/devices/Multiplier.h
index 49eb582..1dcbdb3 100644
--- a/fairmq/devices/Multiplier.h
+++ b/fairmq/devices/Multiplier.h
@@ -44,7 +44,7 @@ class Multiplier : public Device
     {
         for (unsigned int i = 0; i < fOutChannelNames.size() - 1; ++i) { // all except last channel
             for (unsigned int j = 0; j < GetNumSubChannels(fOutChannelNames.at(i)); ++j) { // all subChannels in a channel
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
                 msgCopy->Copy(*payload);
 
                 Send(msgCopy, fOutChannelNames.at(i), j);
@@ -54,7 +54,7 @@ class Multiplier : public Device
         unsigned int lastChannelSize = GetNumSubChannels(fOutChannelNames.back());
 
         for (unsigned int i = 0; i < lastChannelSize - 1; ++i) { // iterate over all except last subChannels of the last channel
-            MessagePtr msgCopy(fTransportFactory->CreateMessage());
+            MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
             msgCopy->Copy(*payload);
 
             Send(msgCopy, fOutChannelNames.back(), i);
@@ -72,7 +72,7 @@ class Multiplier : public Device
                 Parts parts;
 
                 for (unsigned int k = 0; k < payload.Size(); ++k) {
-                    MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                    MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                     msgCopy->Copy(*(payload.At(k)));
                     parts.AddPart(std::move(msgCopy));
                 }
@@ -87,7 +87,7 @@ class Multiplier : public Device
             Parts parts;
 
             for (unsigned int k = 0; k < payload.Size(); ++k) {
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                 msgCopy->Copy(*(payload.At(k)));
                 parts.AddPart(std::move(msgCopy));
             }
-- 
2.43.0


From 7c3f4cf596cb8ecce8f51c780b1646c10d208ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 22/41] fix: release the shmem transport after the other
 transports of a device

---
 fairmq/Device.cxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 376302f..cf1c284 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -747,10 +747,16 @@ void Device::ResetTaskWrapper()
 
 void Device::ResetWrapper()
 {
+    // Shared memory buffers sent over a channel of another transport can be in use until that transport
+    // is gone, the shared memory transport has to outlive it.
+    shared_ptr<TransportFactory> shmTransport;
     {
         lock_guard<mutex> lock(fTransportMtx);
         for (auto& [transportType, transport] : fTransports) {
             transport->Reset();
+            if (transportType == mq::Transport::SHM) {
+                shmTransport = transport;
+            }
         }
         fTransports.clear();
     }
@@ -762,6 +768,7 @@ void Device::ResetWrapper()
     fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
+    shmTransport.reset();
     if (!NewStatePending()) {
         ChangeStateOrThrow(Transition::Auto);
     }
@@ -775,6 +782,15 @@ Device::~Device()
     UnsubscribeFromNewTransition("device");
     fStateMachine.StopHandlingStates();
     LOG(debug) << "Shutting down device " << fId;
+
+    // without a reset of the device before, the shared memory transport has to outlive the others here as well
+    auto const shm = fTransports.find(mq::Transport::SHM);
+    shared_ptr<TransportFactory> const shmTransport(shm != fTransports.end() ? shm->second : nullptr);
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
+    GetChannels().clear();
+    fTransports.clear();
+    fTransportFactory.reset();
 }
 #pragma GCC diagnostic pop
 
-- 
2.43.0


From 5614b1fca82a1ff36f43faf46486919e014caecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 23/41] fix: interactive control reacts to a requested
 shutdown, buffered keys and the end of input

---
 fairmq/plugins/control/Control.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7788253..a857060 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -19,6 +19,7 @@
 #include <thread>
 
 #include <poll.h> // for the interactive mode
+#include <unistd.h> // for read()
 
 using namespace std;
 
@@ -172,14 +173,23 @@ auto Control::RunREPL() -> void
     bool keepRunning = true;
 
     while (keepRunning) {
-        if (poll(cinfd, 1, 100)) {
+        if (poll(cinfd, 1, 100) > 0) {
             if (fDeviceShutdownRequested) {
                 break;
             }
 
-            cin >> input;
+            // not via cin: it would wait for more input on whitespace and buffer keys, which poll() does not see
+            if (read(cinfd[0].fd, &input, 1) != 1) {
+                cinfd[0].fd = -1; // end of input, a negative descriptor is ignored by poll()
+                continue;
+            }
 
             switch (input) {
+                case ' ':
+                case '\t':
+                case '\r':
+                case '\n':
+                break;
                 case 'c':
                     cout << "\n --> [i] check current state\n\n" << flush;
                     LOG(state) << GetCurrentDeviceState();
-- 
2.43.0


From b6e8c2e979110e99a31f27a8195499232fd1d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 24/41] fix: shutdown sequence does not lose a state announced
 before it clears the queue

---
 fairmq/plugins/control/Control.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index a857060..eda98f1 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -480,10 +480,9 @@ auto Control::SignalHandler() -> void
 
 auto Control::RunShutdownSequence() -> void
 {
+    // clear the queue first: a state that is entered after this is either seen here or found in the queue
+    fStateQueue.Clear();
     auto nextState = GetCurrentDeviceState();
-    if (nextState != DeviceState::Error) {
-        fStateQueue.Clear();
-    }
     while (nextState != DeviceState::Exiting && nextState != DeviceState::Error) {
         switch (nextState) {
             case DeviceState::Idle:
-- 
2.43.0


From 2e1191dc18290dc51c8232a5670a8aeed5a204ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 25/41] fix: give every unmanaged region of the zeromq
 transport its own id

---
 fairmq/zeromq/Context.h         | 6 +++---
 fairmq/zeromq/UnmanagedRegion.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..6dcf3d8 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -112,17 +112,17 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    // a new id with every call
+    uint16_t NextRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
             fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
         }
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..b73c059 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.NextRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From 6961688f6d1518ef7ba30e5a75ce531894a24dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 26/41] fix: survive the destruction of a region while its
 creation is being announced

---
 fairmq/shmem/Manager.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 43d7133..fb4a8c6 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -510,18 +510,26 @@ class Manager
         }
 
         // do another iteration outside of shm lock, to fill ptr+size of unmanaged regions
-        for (auto& info : result) {
+        for (auto it = result.begin(); it != result.end();) {
+            auto& info = *it;
             if (!info.managed && info.event == RegionEvent::created) {
                 auto cfgIt = regionCfgs.find(info.id);
                 if (cfgIt != regionCfgs.end()) {
                     UnmanagedRegion* region = nullptr;
                     std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-                    auto it = fRegions.find(info.id);
-                    if (it != fRegions.end()) {
-                        region = it->second.get();
+                    auto regionIt = fRegions.find(info.id);
+                    if (regionIt != fRegions.end()) {
+                        region = regionIt->second.get();
                     } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
+                        try {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                        } catch (std::exception& e) {
+                            // the region can be destroyed by its creator since shmLock was released
+                            LOG(debug) << "Could not open region with id '" << info.id << "': " << e.what();
+                            it = result.erase(it);
+                            continue;
+                        }
                         region->InitializeQueues();
                         region->StartAckSender();
                     }
@@ -533,6 +541,7 @@ class Manager
                     info.size = 0;
                 }
             }
+            ++it;
         }
 
         return result;
-- 
2.43.0


From 028560deb8dcf6709e9b9d09ed8bd841a5bcaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 27/41] fix: synchronise access to the local list of opened
 segments

---
 fairmq/shmem/Manager.h | 56 ++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index fb4a8c6..58fce1e 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -34,6 +34,7 @@
 #include <memory> // make_unique
 #include <mutex>
 #include <set>
+#include <shared_mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -53,6 +54,8 @@ namespace fair::mq::shmem
 
 class Manager
 {
+    using SegmentVariant = std::variant<RBTreeBestFitSegment, SimpleSeqFitSegment>;
+
   public:
     Manager(const std::string& sessionName, size_t size, const ProgOptions* config)
         : fShmId64(config ? config->GetProperty<uint64_t>("shmid", makeShmIdUint64(sessionName)) : makeShmIdUint64(sessionName))
@@ -472,14 +475,14 @@ class Manager
 
             for (const auto& [segmentId, segmentInfo] : *fShmSegments) {
                 // make sure any segments in the session are found
-                GetSegment(segmentId);
+                OpenSegment(segmentId);
                 try {
                     fair::mq::RegionInfo info;
                     info.managed = true;
                     info.id = segmentId;
                     info.event = RegionEvent::created;
-                    info.ptr = std::visit([](auto& s) { return s.get_address(); }, fSegments.at(segmentId));
-                    info.size = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(segmentId));
+                    info.ptr = std::visit([](auto& s) { return s.get_address(); }, LocalSegment(segmentId));
+                    info.size = std::visit([](auto& s) { return s.get_size(); }, LocalSegment(segmentId));
                     result.push_back(info);
                 } catch (const std::out_of_range& oor) {
                     LOG(error) << "could not find segment with id " << segmentId;
@@ -659,6 +662,20 @@ class Manager
 
     void GetSegment(uint16_t id)
     {
+        {
+            std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+            if (fSegments.find(id) != fSegments.end()) {
+                return;
+            }
+        }
+        boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
+        OpenSegment(id);
+    }
+
+    // must be called under locked fShmMtx
+    void OpenSegment(uint16_t id)
+    {
+        std::lock_guard<std::shared_mutex> lock(fSegmentsMtx);
         auto it = fSegments.find(id);
         if (it == fSegments.end()) {
             try {
@@ -681,13 +698,25 @@ class Manager
         }
     }
 
+    // the references remain valid when further segments are opened
+    SegmentVariant& LocalSegment(uint16_t id)
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.at(id);
+    }
+    const SegmentVariant& LocalSegment(uint16_t id) const
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.at(id);
+    }
+
     boost::interprocess::managed_shared_memory::handle_t GetHandleFromAddress(const void* ptr, uint16_t segmentId) const
     {
-        return std::visit([ptr](auto& s) { return s.get_handle_from_address(ptr); }, fSegments.at(segmentId));
+        return std::visit([ptr](auto& s) { return s.get_handle_from_address(ptr); }, LocalSegment(segmentId));
     }
     char* GetAddressFromHandle(const boost::interprocess::managed_shared_memory::handle_t handle, uint16_t segmentId) const
     {
-        return std::visit([handle](auto& s) { return reinterpret_cast<char*>(s.get_address_from_handle(handle)); }, fSegments.at(segmentId));
+        return std::visit([handle](auto& s) { return reinterpret_cast<char*>(s.get_address_from_handle(handle)); }, LocalSegment(segmentId));
     }
 
     char* Allocate(size_t size, size_t alignment = 0)
@@ -700,24 +729,24 @@ class Manager
 
         while (!ptr) {
             try {
-                size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
+                size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, LocalSegment(fSegmentId));
                 if (fullSize > segmentSize) {
                     throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
                 }
 
-                ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, fSegments.at(fSegmentId));
+                ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, LocalSegment(fSegmentId));
                 ShmHeader::Construct(ptr, alignment);
             } catch (boost::interprocess::bad_alloc& ba) {
                 // LOG(warn) << "Shared memory full...";
                 if (fBadAllocMaxAttempts >= 0 && ++numAttempts >= fBadAllocMaxAttempts) {
                     throw MessageBadAlloc(tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId))));
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId))));
                 }
                 if (numAttempts == 1 && fBadAllocMaxAttempts > 1) {
                     LOG(warn) << tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId)),
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId)),
                         ". Will try ", (fBadAllocMaxAttempts > 1 ? (std::to_string(fBadAllocMaxAttempts - 1)) + " more times" : " until success"),
                         ", in ", fBadAllocAttemptIntervalInMs, "ms intervals");
                 }
@@ -725,7 +754,7 @@ class Manager
                 if (Interrupted()) {
                     throw MessageBadAlloc(tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId))));
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId))));
                 } else {
                     continue;
                 }
@@ -759,12 +788,12 @@ class Manager
         }
 #endif
         ShmHeader::Destruct(ptr);
-        std::visit([ptr](auto& s) { s.deallocate(ptr); }, fSegments.at(segmentId));
+        std::visit([ptr](auto& s) { s.deallocate(ptr); }, LocalSegment(segmentId));
     }
 
     char* ShrinkInPlace(size_t newSize, char* localPtr, uint16_t segmentId)
     {
-        return std::visit(SegmentBufferShrink(newSize, localPtr), fSegments.at(segmentId));
+        return std::visit(SegmentBufferShrink(newSize, localPtr), LocalSegment(segmentId));
     }
 
     uint16_t GetSegmentId() const { return fSegmentId; }
@@ -812,7 +841,8 @@ class Manager
     uint64_t fShmId64;
     std::string fShmId;
     uint16_t fSegmentId;
-    std::unordered_map<uint16_t, std::variant<RBTreeBestFitSegment, SimpleSeqFitSegment>> fSegments; // TODO: refactor to use Segment class
+    std::unordered_map<uint16_t, SegmentVariant> fSegments; // TODO: refactor to use Segment class
+    mutable std::shared_mutex fSegmentsMtx; // segments are opened by any thread on demand, always locked after fShmMtx
     boost::interprocess::managed_shared_memory fManagementSegment; // TODO: refactor to use ManagementSegment class
     VoidAlloc fShmVoidAlloc;
     boost::interprocess::interprocess_mutex* fShmMtx;
-- 
2.43.0


From 041ba8f29b01b37a54740545c0197a97316bafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 28/41] fix: do not remove a session from under a device that
 joins it

---
 fairmq/shmem/Common.h  |  4 +++
 fairmq/shmem/Manager.h | 81 ++++++++++++++++++++++++++++++------------
 2 files changed, 63 insertions(+), 22 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..126117c 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -11,6 +11,7 @@
 #include <atomic>
 #include <string>
 #include <functional> // std::equal_to
+#include <limits>
 
 #include <boost/functional/hash.hpp>
 // #include <boost/interprocess/allocators/adaptive_pool.hpp>
@@ -225,6 +226,9 @@ struct DeviceCounter
         : fCount(c)
     {}
 
+    // value of the counter once the last device has removed the session
+    static constexpr unsigned int removed = std::numeric_limits<unsigned int>::max();
+
     std::atomic<unsigned int> fCount;
 };
 
diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 58fce1e..6be04e6 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -121,9 +121,11 @@ class Manager
             StartMonitor(fShmId);
         }
 
-        fHeartbeatThread = std::thread(&Manager::Heartbeats, this);
-
         try {
+            JoinSession();
+
+            fHeartbeatThread = std::thread(&Manager::Heartbeats, this);
+
             boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
 
             SessionInfo* sessionInfo = fManagementSegment.find<SessionInfo>(unique_instance).first;
@@ -144,17 +146,6 @@ class Manager
                 LOG(trace) << "initialized event counter with: " << fEventCounter->fCount;
             }
 
-            fDeviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
-            if (fDeviceCounter) {
-                LOG(trace) << "device counter found, with value of " << fDeviceCounter->fCount << ". incrementing.";
-                (fDeviceCounter->fCount)++;
-                LOG(trace) << "incremented device counter, now: " << fDeviceCounter->fCount;
-            } else {
-                LOG(trace) << "no device counter found, creating one and initializing with 1";
-                fDeviceCounter = fManagementSegment.construct<DeviceCounter>(unique_instance)(1);
-                LOG(trace) << "initialized device counter with: " << fDeviceCounter->fCount;
-            }
-
             fShmSegments = fManagementSegment.find_or_construct<Uint16SegmentInfoHashMap>(unique_instance)(fShmVoidAlloc);
             fShmRegions = fManagementSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(fShmVoidAlloc);
 
@@ -221,7 +212,9 @@ class Manager
 #endif
         } catch (...) {
             StopHeartbeats();
-            CleanupIfLast();
+            if (fDeviceCounter) {
+                CleanupIfLast();
+            }
             throw;
         }
     }
@@ -252,6 +245,51 @@ class Manager
     }
 
   private:
+    // registers this device with the session, opening the session again if its last device has removed it meanwhile
+    void JoinSession()
+    {
+        using namespace boost::interprocess;
+
+        while (true) {
+            {
+                boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
+
+                DeviceCounter* deviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
+                if (!deviceCounter) {
+                    LOG(trace) << "no device counter found, creating one and initializing with 1";
+                    fDeviceCounter = fManagementSegment.construct<DeviceCounter>(unique_instance)(1);
+                    LOG(trace) << "initialized device counter with: " << fDeviceCounter->fCount;
+                    return;
+                }
+                if (deviceCounter->fCount != DeviceCounter::removed) {
+                    LOG(trace) << "device counter found, with value of " << deviceCounter->fCount << ". incrementing.";
+                    fDeviceCounter = deviceCounter;
+                    (fDeviceCounter->fCount)++;
+                    LOG(trace) << "incremented device counter, now: " << fDeviceCounter->fCount;
+                    return;
+                }
+            }
+
+            LOG(debug) << "session has been removed by its last device, opening again";
+            fManagementSegment = managed_shared_memory(open_or_create, MakeShmName(fShmId, "mng").c_str(), kManagementSegmentSize);
+            VoidAlloc shmVoidAlloc(fManagementSegment.get_segment_manager());
+            swap(fShmVoidAlloc, shmVoidAlloc);
+            fShmMtx = fManagementSegment.find_or_construct<interprocess_mutex>(unique_instance)();
+        }
+    }
+
+    static bool ObjectIsPresent(const std::string& name)
+    {
+        using namespace boost::interprocess;
+
+        try {
+            shared_memory_object object(open_only, name.c_str(), read_only);
+            return true;
+        } catch (interprocess_exception& e) {
+            return e.get_error_code() != not_found_error;
+        }
+    }
+
     static bool SpawnShmMonitor(const std::string& id);
 
   public:
@@ -802,27 +840,26 @@ class Manager
     {
         using namespace boost::interprocess;
 
-        bool lastRemoved = false;
         try {
+            // the session is removed under the lock, to not remove it from under a device that joins it meanwhile
             boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
 
             (fDeviceCounter->fCount)--;
 
             if (fDeviceCounter->fCount == 0) {
                 LOG(debug) << "Last segment user, " << (fNoCleanup ? "skipping removal (--shm-no-cleanup is true)." : "removing segment.");
-                lastRemoved = true;
+                if (!fNoCleanup) {
+                    fDeviceCounter->fCount = DeviceCounter::removed;
+                    if (Monitor::Cleanup(ShmId{fShmId}).empty() && ObjectIsPresent(MakeShmName(fShmId, "mng"))) {
+                        fDeviceCounter->fCount = 0; // could not be removed
+                    }
+                }
             } else {
                 LOG(debug) << "Other segment users present (" << fDeviceCounter->fCount << "), skipping removal.";
             }
         } catch (interprocess_exception& e) {
             LOG(error) << "Manager could not acquire lock: " << e.what();
         }
-
-        if (lastRemoved) {
-            if (!fNoCleanup) {
-                Monitor::Cleanup(ShmId{fShmId});
-            }
-        }
     }
 
     auto GetMetadataMsgSize() const noexcept { return fMetadataMsgSize; }
-- 
2.43.0


From c637e50468caaab19f2bb0506327f1578553657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 29/41] fix: remove the parts of a segment whose creation
 failed

---
 fairmq/shmem/Manager.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 6be04e6..0fe8827 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -150,12 +150,14 @@ class Manager
             fShmRegions = fManagementSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(fShmVoidAlloc);
 
             bool createdSegment = false;
+            bool creatingSegment = false;
+            const std::string segmentName = MakeShmName(fShmId, "m", fSegmentId);
 
             try {
-                std::string segmentName = MakeShmName(fShmId, "m", fSegmentId);
                 auto it = fShmSegments->find(fSegmentId);
                 if (it == fShmSegments->end()) {
                     // no segment with given id exists, creating
+                    creatingSegment = !ObjectIsPresent(segmentName);
                     if (allocationAlgorithm == "rbtree_best_fit") {
                         fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
                         fShmSegments->emplace(fSegmentId, AllocationAlgorithm::rbtree_best_fit);
@@ -170,6 +172,7 @@ class Manager
                         ZeroSegment(fSegmentId);
                     }
                     createdSegment = true;
+                    creatingSegment = false;
                 } else {
                     // found segment with the given id, opening
                     if (it->second.fAllocationAlgorithm == AllocationAlgorithm::rbtree_best_fit) {
@@ -191,6 +194,10 @@ class Manager
                     << " Available: " << std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId)) << " bytes."
                     << " Allocation algorithm: " << allocationAlgorithm;
             } catch (interprocess_exception& bie) {
+                if (creatingSegment) {
+                    // remove what has been created so far, it is not registered yet and would prevent any later creation
+                    Monitor::RemoveObject(segmentName);
+                }
                 LOG(error) << "Failed to create/open shared memory segment '" << "fmq_" << fShmId << "_m_" << fSegmentId << "': " << bie.what();
                 throw TransportError(tools::ToString("Failed to create/open shared memory segment '", "fmq_", fShmId, "_m_", fSegmentId, "': ", bie.what()));
             }
-- 
2.43.0


From fd68357a5181bbc88d9c3c58d373879915ba5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 30/41] fix: let the cleanup remove an incomplete management
 segment

---
 fairmq/shmem/Monitor.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b996caa..f6f2b42 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -707,8 +707,14 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
         }
 
         result.emplace_back(Remove<bipc::shared_memory_object>(managementSegmentName, verbose));
-    } catch (bie&) {
-        if (verbose) {
+    } catch (bie& e) {
+        if (e.get_error_code() == bipc::corrupted_error) {
+            // its creation failed half way, remove it to not prevent any later creation
+            if (verbose) {
+                LOG(info) << "Management segment '" << managementSegmentName << "' is incomplete. No regions to cleanup.";
+            }
+            result.emplace_back(Remove<bipc::shared_memory_object>(managementSegmentName, verbose));
+        } else if (verbose) {
             LOG(info) << "Did not find '" << managementSegmentName << "' management segment. No regions to cleanup.";
         }
     }
-- 
2.43.0


From faa15cc6bbd79661beeefac4509865a386c55da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 31/41] fix: release a user buffer of size 0 handed to a shmem
 message

---
 fairmq/shmem/Message.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 8fd5791..296f415 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,11 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -149,11 +149,11 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From 9325a208fb9f8749092537a25fb52525a429f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 32/41] fix: shm monitor: measure heartbeat age with the steady
 clock

With the wall clock, a clock adjustment made the monitor remove the
shared memory of a live session.
---
 fairmq/shmem/Monitor.cxx | 8 ++++----
 fairmq/shmem/Monitor.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index f6f2b42..25ffb45 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -71,7 +71,7 @@ Monitor::Monitor(string shmId, bool selfDestruct, bool interactive, bool viewOnl
     , fShmId(std::move(shmId))
     , fTerminating(false)
     , fHeartbeatTriggered(false)
-    , fLastHeartbeat(chrono::high_resolution_clock::now())
+    , fLastHeartbeat(chrono::steady_clock::now())
 {
     if (!fViewOnly) {
         try {
@@ -137,7 +137,7 @@ void Monitor::Watch()
 
             fSeenOnce = true;
 
-            auto now = chrono::high_resolution_clock::now();
+            auto now = chrono::steady_clock::now();
             unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
 
             if (fHeartbeatTriggered && duration > fTimeoutInMS) {
@@ -160,7 +160,7 @@ void Monitor::Watch()
                     fTerminating = true;
                 } else {
                     // if self-destruct is requested, and no segment has ever been observed, quit after double timeout duration
-                    auto now = chrono::high_resolution_clock::now();
+                    auto now = chrono::steady_clock::now();
                     unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
 
                     if (duration > fTimeoutInMS * 2) {
@@ -342,7 +342,7 @@ void Monitor::CheckHeartbeats()
                 uint64_t globalHb = hb->fCount;
                 if (localHb != globalHb) {
                     fHeartbeatTriggered = true;
-                    fLastHeartbeat.store(chrono::high_resolution_clock::now());
+                    fLastHeartbeat.store(chrono::steady_clock::now());
                     localHb = globalHb;
                 }
             }
diff --git a/fairmq/shmem/Monitor.h b/fairmq/shmem/Monitor.h
index 39f34c3..6c9591b 100644
--- a/fairmq/shmem/Monitor.h
+++ b/fairmq/shmem/Monitor.h
@@ -177,7 +177,7 @@ class Monitor
     std::string fShmId;
     std::atomic<bool> fTerminating;
     std::atomic<bool> fHeartbeatTriggered;
-    std::atomic<std::chrono::high_resolution_clock::time_point> fLastHeartbeat;
+    std::atomic<std::chrono::steady_clock::time_point> fLastHeartbeat;
     std::thread fSignalThread;
 };
 
-- 
2.43.0


From c42c0fae63a63c11e953d302335c900ce6682b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 33/41] fix: shm monitor: do not judge a new heartbeat by the
 time of an older one

The flag was published before the time, and the time read after the
clock: the monitor could remove the session it had just seen alive.
---
 fairmq/shmem/Monitor.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 25ffb45..9bf3a01 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -137,10 +137,13 @@ void Monitor::Watch()
 
             fSeenOnce = true;
 
+            // in this order: a heartbeat noticed in between must not be compared with an older time
+            bool heartbeatTriggered = fHeartbeatTriggered;
+            auto lastHeartbeat = fLastHeartbeat.load();
             auto now = chrono::steady_clock::now();
-            unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
+            unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - lastHeartbeat).count();
 
-            if (fHeartbeatTriggered && duration > fTimeoutInMS) {
+            if (heartbeatTriggered && duration > fTimeoutInMS) {
                 // memory is present, but no heartbeats since timeout duration
                 LOG(info) << "no heartbeats since over " << fTimeoutInMS << " milliseconds, cleaning...";
                 Cleanup(ShmId{fShmId});
@@ -341,8 +344,9 @@ void Monitor::CheckHeartbeats()
             if (hb) {
                 uint64_t globalHb = hb->fCount;
                 if (localHb != globalHb) {
-                    fHeartbeatTriggered = true;
+                    // in this order: with the time of an older heartbeat a new session would appear to be dead
                     fLastHeartbeat.store(chrono::steady_clock::now());
+                    fHeartbeatTriggered = true;
                     localHb = globalHb;
                 }
             }
-- 
2.43.0


From 32a59e8dd4d660ce0761282915e2b4f4764ef760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 34/41] fix: shm monitor: notice a new session with the
 heartbeat count of the previous one

If the new session crashed after as many heartbeats as the old one, it
was never cleaned up.
---
 fairmq/shmem/Monitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 9bf3a01..4cbf0f3 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -343,7 +343,8 @@ void Monitor::CheckHeartbeats()
 
             if (hb) {
                 uint64_t globalHb = hb->fCount;
-                if (localHb != globalHb) {
+                // after a cleanup any heartbeat belongs to a new session, also when its number has been seen before
+                if (localHb != globalHb || (!fHeartbeatTriggered && globalHb != 0)) {
                     // in this order: with the time of an older heartbeat a new session would appear to be dead
                     fLastHeartbeat.store(chrono::steady_clock::now());
                     fHeartbeatTriggered = true;
-- 
2.43.0


From 9b0f014dcd169716bfce7da0b7c6578273f4afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 35/41] fix: shm monitor: do not copy the region path within
 the read only segment

A path too long for the small string buffer was allocated in the
management segment, which is mapped read only: the cleanup crashed.
---
 fairmq/shmem/Monitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 4cbf0f3..959f354 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -681,7 +681,8 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
             }
             for (const auto& region : *shmRegions) {
                 uint16_t id = region.first;
-                RegionInfo info = region.second;
+                // do not copy the path with its allocator, the segment is read only
+                const RegionInfo& info = region.second;
                 string path = info.fPath.c_str();
                 int flags = info.fCreationFlags;
                 if (verbose) {
-- 
2.43.0


From 06175c11edb031728c3fd74c629593d5bcb70c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:17 +0000
Subject: [PATCH 36/41] fix: register shmem segments and regions before
 creating them

A device crashing in between left objects that no cleanup found. If the
creation of a region fails half way, remove what has been created.
---
 fairmq/shmem/Manager.h         |  8 +++---
 fairmq/shmem/Monitor.cxx       |  1 +
 fairmq/shmem/UnmanagedRegion.h | 48 +++++++++++++++++++++++++++++++---
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 0fe8827..4eef309 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -158,12 +158,13 @@ class Manager
                 if (it == fShmSegments->end()) {
                     // no segment with given id exists, creating
                     creatingSegment = !ObjectIsPresent(segmentName);
+                    // register it first, so that the cleanup finds it if this device crashes meanwhile
                     if (allocationAlgorithm == "rbtree_best_fit") {
-                        fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
                         fShmSegments->emplace(fSegmentId, AllocationAlgorithm::rbtree_best_fit);
+                        fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
                     } else if (allocationAlgorithm == "simple_seq_fit") {
-                        fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
                         fShmSegments->emplace(fSegmentId, AllocationAlgorithm::simple_seq_fit);
+                        fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
                     }
                     if (mlockSegmentOnCreation) {
                         MlockSegment(fSegmentId);
@@ -195,8 +196,9 @@ class Manager
                     << " Allocation algorithm: " << allocationAlgorithm;
             } catch (interprocess_exception& bie) {
                 if (creatingSegment) {
-                    // remove what has been created so far, it is not registered yet and would prevent any later creation
+                    // remove what has been created so far, it would prevent any later creation
                     Monitor::RemoveObject(segmentName);
+                    fShmSegments->erase(fSegmentId);
                 }
                 LOG(error) << "Failed to create/open shared memory segment '" << "fmq_" << fShmId << "_m_" << fSegmentId << "': " << bie.what();
                 throw TransportError(tools::ToString("Failed to create/open shared memory segment '", "fmq_", fShmId, "_m_", fSegmentId, "': ", bie.what()));
diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 959f354..10ddff0 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -855,6 +855,7 @@ void Monitor::ResetContent(const ShmId& shmIdT, const std::vector<SegmentConfig>
     cout << "filling management segment with unmanaged region configs..." << endl;
     for (const auto& r : regionCfgs) {
         fair::mq::shmem::UnmanagedRegion::Register(shmId, r);
+        fair::mq::shmem::UnmanagedRegion::Announce(shmId);
     }
     cout << "done." << endl;
     // reset managed segments
diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index ad2aa6c..a6b46f2 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -80,6 +80,24 @@ struct UnmanagedRegion
         const uint16_t id = cfg.id.value();
         bool created = false;
 
+        // removes what has been created if the construction fails
+        struct Rollback
+        {
+            const UnmanagedRegion& fUnmanagedRegion;
+            const std::string& fShmId;
+            uint16_t fId;
+            bool fActive;
+
+            ~Rollback()
+            {
+                if (fActive) {
+                    Monitor::RemoveObject(fUnmanagedRegion.fName);
+                    Monitor::RemoveObject(fUnmanagedRegion.fRefCountSegmentName);
+                    Unregister(fShmId, fId);
+                }
+            }
+        } rollback{*this, shmId, id, false};
+
         LOG(debug) << "UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
 
         if (!cfg.path.empty()) {
@@ -114,6 +132,9 @@ struct UnmanagedRegion
                 } catch (interprocess_exception& e) {
                     if (fControlling) {
                         LOG(debug) << "Could not open controlling shared_memory_object for region " << id << ": " << e.what() << ", creating...";
+                        // register it first, so that the cleanup finds it if this device crashes meanwhile
+                        Register(shmId, cfg);
+                        rollback.fActive = true;
                         fShmemObject = shared_memory_object(create_only, fName.c_str(), read_write);
                         fShmemObject.truncate(size);
                         created = true;
@@ -153,8 +174,9 @@ struct UnmanagedRegion
         InitializeRefCountSegment(fRcSegmentSize);
 
         if (fControlling && created) {
-            Register(shmId, cfg);
+            Announce(shmId);
         }
+        rollback.fActive = false;
 
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
     }
@@ -289,8 +311,6 @@ struct UnmanagedRegion
 
         Uint16RegionInfoHashMap* shmRegions = mngSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(alloc);
 
-        EventCounter* eventCounter = mngSegment.find_or_construct<EventCounter>(unique_instance)(0);
-
         auto it = shmRegions->find(cfg.id.value());
         if (it != shmRegions->end()) {
             LOG(error) << "Unmanaged Region with id " << cfg.id.value() << " has already been registered. Only unique IDs per session are allowed.";
@@ -298,9 +318,31 @@ struct UnmanagedRegion
         }
 
         shmRegions->emplace(cfg.id.value(), RegionInfo(cfg.path.c_str(), cfg.creationFlags, cfg.userFlags, cfg.size, cfg.rcSegmentSize, alloc));
+    }
+
+    // lets the subscribers to region events look for new regions
+    static void Announce(const std::string& shmId)
+    {
+        using namespace boost::interprocess;
+        managed_shared_memory mngSegment(open_or_create, MakeShmName(shmId, "mng").c_str(), kManagementSegmentSize);
+        EventCounter* eventCounter = mngSegment.find_or_construct<EventCounter>(unique_instance)(0);
         (eventCounter->fCount)++;
     }
 
+    static void Unregister(const std::string& shmId, uint16_t id)
+    {
+        using namespace boost::interprocess;
+        try {
+            managed_shared_memory mngSegment(open_only, MakeShmName(shmId, "mng").c_str());
+            Uint16RegionInfoHashMap* shmRegions = mngSegment.find<Uint16RegionInfoHashMap>(unique_instance).first;
+            if (shmRegions) {
+                shmRegions->erase(id);
+            }
+        } catch (interprocess_exception& e) {
+            LOG(error) << "Failed to unregister unmanaged shared memory region with id " << id << ": " << e.what();
+        }
+    }
+
     void SetCallbacks(RegionCallback callback, RegionBulkCallback bulkCallback)
     {
         fCallback = std::move(callback);
-- 
2.43.0


From b9a121ee8fb3f948d0901388b625b0852edab7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:17 +0000
Subject: [PATCH 37/41] fix: register shmem regions backed by files

They were not usable by other devices (unknown to them) and the files
were left by the cleanup of crashed sessions.
---
 fairmq/shmem/UnmanagedRegion.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index a6b46f2..5ec3ff9 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -92,6 +92,7 @@ struct UnmanagedRegion
             {
                 if (fActive) {
                     Monitor::RemoveObject(fUnmanagedRegion.fName);
+                    Monitor::RemoveFileMapping(fUnmanagedRegion.fName);
                     Monitor::RemoveObject(fUnmanagedRegion.fRefCountSegmentName);
                     Unregister(fShmId, fId);
                 }
@@ -104,6 +105,12 @@ struct UnmanagedRegion
             fName = std::string(cfg.path + fName);
 
             if (fControlling) {
+                if (!Registered(shmId, id)) {
+                    // register it first, so that the cleanup finds it if this device crashes meanwhile
+                    Register(shmId, cfg);
+                    rollback.fActive = true;
+                    created = true;
+                }
                 // create a file
                 std::filebuf fbuf;
                 if (fbuf.open(fName, std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary)) {
@@ -302,6 +309,14 @@ struct UnmanagedRegion
         return regionCfg;
     }
 
+    static bool Registered(const std::string& shmId, uint16_t id)
+    {
+        using namespace boost::interprocess;
+        managed_shared_memory mngSegment(open_or_create, MakeShmName(shmId, "mng").c_str(), kManagementSegmentSize);
+        Uint16RegionInfoHashMap* shmRegions = mngSegment.find<Uint16RegionInfoHashMap>(unique_instance).first;
+        return shmRegions && shmRegions->find(id) != shmRegions->end();
+    }
+
     static void Register(const std::string& shmId, const RegionConfig& cfg)
     {
         using namespace boost::interprocess;
-- 
2.43.0


From 97781c40e0654fd5c730a1b5299ae450c9db866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:17 +0000
Subject: [PATCH 38/41] fix: remove a region again if creating its
 acknowledgement queue fails

The region was kept without a queue: creating it again returned the
unusable one.
---
 fairmq/shmem/Manager.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 4eef309..fa9b3ad 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -391,12 +391,25 @@ class Manager
                 } else {
                     // we need to update local config, if the region information already exists
                     auto info = fShmRegions->find(id);
-                    if (info != fShmRegions->end()) {
+                    const bool registered = info != fShmRegions->end();
+                    if (registered) {
                         cfg.rcSegmentSize = info->second.fRCSegmentSize;
                     }
 
                     auto res = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, size, true, cfg));
                     region = res.first->second.get();
+                    if (callback || bulkCallback) {
+                        try {
+                            region->InitializeQueues();
+                        } catch (...) {
+                            // do not keep a region nobody knows about
+                            fRegions.erase(id);
+                            if (!registered) {
+                                fShmRegions->erase(id);
+                            }
+                            throw;
+                        }
+                    }
                 }
                 // LOG(debug) << "Created region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
-- 
2.43.0


From c6ab8d6d2b23f4d32664a6350d507f077877c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:55 +0000
Subject: [PATCH 39/41] fix: keep the alignment of a zeromq message that is
 received into repeatedly

After one received buffer had to be realigned, further ones were not
aligned anymore.
---
 fairmq/zeromq/Message.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..27e6160 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -245,8 +245,10 @@ class Message final : public fair::mq::Message
                 // create new aligned buffer
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
-                // rebuild the message with the new buffer
+                // rebuild the message with the new buffer, keeping the alignment for the next transfer
+                const size_t alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From abdcf7007348bf5fdf84787654cbadb43e3f554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 40/41] fix: log channel rates for the configured interval, not
 as if it were one second

---
 fairmq/Device.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index cf1c284..43fb6fb 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -673,7 +673,8 @@ void Device::LogSocketRates()
         ++i;
     }
 
-    chrono::time_point<chrono::high_resolution_clock> t0(chrono::high_resolution_clock::now());
+    // time of the last log of each channel
+    vector<chrono::time_point<chrono::high_resolution_clock>> t0(filteredChannels.size(), chrono::high_resolution_clock::now());
     chrono::time_point<chrono::high_resolution_clock> t1;
 
     while (!NewStatePending()) {
@@ -681,8 +682,6 @@ void Device::LogSocketRates()
 
         t1 = chrono::high_resolution_clock::now();
 
-        uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0).count();
-
         i = 0;
 
         for (const auto& channel : filteredChannels) {
@@ -691,7 +690,11 @@ void Device::LogSocketRates()
             if (intervalCounters.at(i) == logIntervals.at(i)) {
                 intervalCounters.at(i) = 0;
 
+                uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0.at(i)).count();
+
                 if (msSinceLastLog > 0) {
+                    t0.at(i) = t1;
+
                     bytesInNew.at(i) = channel->GetBytesRx();
                     msgInNew.at(i) = channel->GetMessagesRx();
                     bytesOutNew.at(i) = channel->GetBytesTx();
@@ -715,8 +718,6 @@ void Device::LogSocketRates()
 
             ++i;
         }
-
-        t0 = t1;
     }
 }
 
-- 
2.43.0


From e913900460073142b94991f888269d1c671d2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 41/41] fix: measure logged channel rates with the steady clock

---
 fairmq/Device.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 43fb6fb..b70b20b 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -674,13 +674,13 @@ void Device::LogSocketRates()
     }
 
     // time of the last log of each channel
-    vector<chrono::time_point<chrono::high_resolution_clock>> t0(filteredChannels.size(), chrono::high_resolution_clock::now());
-    chrono::time_point<chrono::high_resolution_clock> t1;
+    vector<chrono::time_point<chrono::steady_clock>> t0(filteredChannels.size(), chrono::steady_clock::now());
+    chrono::time_point<chrono::steady_clock> t1;
 
     while (!NewStatePending()) {
         WaitFor(chrono::seconds(1));
 
-        t1 = chrono::high_resolution_clock::now();
+        t1 = chrono::steady_clock::now();
 
         i = 0;
 
-- 
2.43.0

