From 5da7d3196e345d9f3d28a95072b80e7acf44406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/28] fix: do not lose the wake-up of a message published
 while the bus goes to sleep

---
 src/lamppost/bus/Bus.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..a790849 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -136,26 +136,27 @@ namespace lp
 
     void Bus::Run()
     {
-      std::unique_lock<std::mutex> notifierLock(mNotifierMutex);
+      std::lock_guard<std::mutex> notifierLock(mNotifierMutex);
 
       while(mShouldRun)
       {
-        mNotifier.wait_for(notifierLock,
-                           std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
-                           [this]
-                           {
-                             std::lock_guard<std::mutex> lock(mQueueMutex);
-                             return !mQueuedMessages.empty() || !mShouldRun;
-                           });
-
-        if(!mShouldRun)
-        {
-          break;
-        }
-
         std::deque<messages::Message> queuedMessages;
         {
-          std::lock_guard<std::mutex> lock(mQueueMutex);
+          // Wait on the mutex that guards the queue; a notification that is sent between looking at the queue and going
+          // to sleep would get lost otherwise.
+          std::unique_lock<std::mutex> lock(mQueueMutex);
+          mNotifier.wait_for(lock,
+                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
+                             [this]
+                             {
+                               return !mQueuedMessages.empty() || !mShouldRun;
+                             });
+
+          if(!mShouldRun)
+          {
+            break;
+          }
+
           queuedMessages = mQueuedMessages;
 
           mQueuedMessages.clear();
-- 
2.43.0


From f2a01bfd46da144f1c3e58cc92751afc358bfc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 02/28] fix: detaching a bus no longer races with threads that
 publish on it

---
 include/lamppost/bus/Bus.h |  4 ++++
 src/lamppost/bus/Bus.cpp   | 28 ++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..f97c72d 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -44,6 +44,7 @@ namespace lp
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
       std::mutex mNotifierMutex;
+      std::mutex mPublishMessageFunctionMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
@@ -61,6 +62,9 @@ namespace lp
       void Publish(std::string topic, lp::messages::Datagram datagram);
       void Distribute(messages::Message message);
 
+      std::function<void(messages::Message)> GetPublishMessageFunction();
+      void ResetPublishMessageFunction();
+
       template<class ClassType, class ... Args>
       std::shared_ptr<ClassType> CreateManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, Args ... args)
       {
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a790849..b2e42a4 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,7 +45,7 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      ResetPublishMessageFunction();
 
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
@@ -72,7 +72,7 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
-      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, GetPublishMessageFunction());
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -98,12 +98,28 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
-      if(mPublishMessageFunction != nullptr)
+      std::function<void(messages::Message)> publishMessageFunction = GetPublishMessageFunction();
+
+      if(publishMessageFunction != nullptr)
       {
-        mPublishMessageFunction(message);
+        publishMessageFunction(message);
       }
     }
 
+    std::function<void(messages::Message)> Bus::GetPublishMessageFunction()
+    {
+      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+
+      return mPublishMessageFunction;
+    }
+
+    void Bus::ResetPublishMessageFunction()
+    {
+      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+
+      mPublishMessageFunction = nullptr;
+    }
+
     void Bus::DeleteSubscriber(std::shared_ptr<Subscriber> subscriber)
     {
       DeleteManagedResource(mSubscribersMutex, mSubscribers, std::move(subscriber));
@@ -206,8 +222,8 @@ namespace lp
 
     void Bus::Detach()
     {
-      mPublishMessageFunction = nullptr;
-      
+      ResetPublishMessageFunction();
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From ea46e545d90c8a77e746c83a82c02d36ebce8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 03/28] fix: changing a participant's callback no longer races
 with its use

---
 include/lamppost/bus/Publisher.h  |  2 ++
 include/lamppost/bus/Subscriber.h |  2 ++
 src/lamppost/bus/Publisher.cpp    | 11 +++++++++--
 src/lamppost/bus/Subscriber.cpp   | 18 +++++++++++++-----
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..571ed5e 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     class Publisher : public BusParticipant
     {
     private:
+      std::mutex mPublishingFunctionMutex;
       DatagramCallbackType mPublishingFunction;
 
     public:
diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..7d86121 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -18,6 +19,7 @@ namespace lp
     class Subscriber : public BusParticipant
     {
     private:
+      std::mutex mCallbackMutex;
       MessageCallbackType mCallback;
 
     public:
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..1c0ab20 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,14 +19,21 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
-      if(mPublishingFunction != nullptr)
+      DatagramCallbackType publishingFunction;
       {
-        mPublishingFunction(datagram);
+        std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
+        publishingFunction = mPublishingFunction;
+      }
+
+      if(publishingFunction != nullptr)
+      {
+        publishingFunction(datagram);
       }
     }
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
       mPublishingFunction = nullptr;
     }
   } // namespace bus
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..b6dad80 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,30 +25,38 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
-      if(mCallback != nullptr)
+      MessageCallbackType callback;
       {
-        mCallback(message);
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(message);
       }
     }
 
     void Subscriber::Reset()
     {
-      mCallback = nullptr;
+      SetMessageCallback(nullptr);
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
-      mCallback = [callback](lp::messages::Message message)
+      SetMessageCallback(
+        [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
 
           // TODO(fairlight1337): Check value here.
           callback(datagram);
-        };
+        });
     }
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = callback;
     }
 
-- 
2.43.0


From 5786b3720571cf7ad787026e6028d73a0e354d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 04/28] fix: let subscriber callbacks create and delete
 subscribers and child buses

---
 include/lamppost/bus/Bus.h | 22 +++++++++++-----------
 src/lamppost/bus/Bus.cpp   | 20 ++++++++++++--------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f97c72d..833ee78 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -39,7 +39,7 @@ namespace lp
       const int BUS_NOTIFIER_CHECK_TIMEOUT_MS = 100;
 
       std::map<std::string, std::shared_ptr<Bus>> mChildBusses;
-      std::mutex mChildBussesMutex;
+      std::recursive_mutex mChildBussesMutex;
       std::mutex mQueueMutex;
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
@@ -51,7 +51,7 @@ namespace lp
 
       std::mutex mPublishersMutex;
       std::list<std::shared_ptr<Publisher>> mPublishers;
-      std::mutex mSubscribersMutex;
+      std::recursive_mutex mSubscribersMutex;
       std::list<std::shared_ptr<Subscriber>> mSubscribers;
 
       std::mutex mActionProvidersMutex;
@@ -65,29 +65,29 @@ namespace lp
       std::function<void(messages::Message)> GetPublishMessageFunction();
       void ResetPublishMessageFunction();
 
-      template<class ClassType, class ... Args>
-      std::shared_ptr<ClassType> CreateManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, Args ... args)
+      template<class ClassType, class MutexType, class ... Args>
+      std::shared_ptr<ClassType> CreateManagedResource(MutexType& mutex, std::list<std::shared_ptr<ClassType>>& container, Args ... args)
       {
         std::shared_ptr<ClassType> instance = std::make_shared<ClassType>(std::forward<Args>(args)...);
 
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<MutexType> lock(mutex);
         container.push_back(instance);
 
         return instance;
       };
 
-      template<class ClassType>
-      void DeleteManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
+      template<class ClassType, class MutexType>
+      void DeleteManagedResource(MutexType& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
       {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<MutexType> lock(mutex);
         container.remove(instance);
         instance->Reset();
       }
 
-      template<class ClassType>
-      bool ContainsManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
+      template<class ClassType, class MutexType>
+      bool ContainsManagedResource(MutexType& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
       {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<MutexType> lock(mutex);
         return std::find(container.begin(), container.end(), instance) != container.end();
       }
 
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index b2e42a4..c32f9ec 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -48,7 +48,7 @@ namespace lp
       ResetPublishMessageFunction();
 
       {
-        std::lock_guard<std::mutex> lock(mChildBussesMutex);
+        std::lock_guard<std::recursive_mutex> lock(mChildBussesMutex);
         for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
         {
           busPair.second->Stop();
@@ -66,7 +66,7 @@ namespace lp
         throw exceptions::ArgumentNullException("name", "Child bus name may not be empty.");
       }
 
-      std::lock_guard<std::mutex> lock(mChildBussesMutex);
+      std::lock_guard<std::recursive_mutex> lock(mChildBussesMutex);
       if(mChildBusses.find(name) != mChildBusses.end())
       {
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
@@ -82,7 +82,7 @@ namespace lp
 
     std::shared_ptr<Bus> Bus::GetChildBus(std::string name)
     {
-      std::lock_guard<std::mutex> lock(mChildBussesMutex);
+      std::lock_guard<std::recursive_mutex> lock(mChildBussesMutex);
       if(mChildBusses.find(name) == mChildBusses.end())
       {
         throw exceptions::KeyNotFoundException(name, "Child bus by that name does not exist in this bus.");
@@ -200,8 +200,11 @@ namespace lp
       if(mShouldRun)
       {
         {
-          std::lock_guard<std::mutex> lock(mSubscribersMutex);
-          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
+          // The mutex stays locked during the callbacks: once a subscriber is deleted by another thread, it is not
+          // called anymore. Callbacks may change the list themselves, hence iterate over a copy of it.
+          std::lock_guard<std::recursive_mutex> lock(mSubscribersMutex);
+          std::list<std::shared_ptr<Subscriber>> subscribers = mSubscribers;
+          for(const std::shared_ptr<Subscriber>& subscriber : subscribers)
           {
             if(TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))
             {
@@ -211,8 +214,9 @@ namespace lp
         }
 
         {
-          std::lock_guard<std::mutex> lock(mChildBussesMutex);
-          for(std::pair<std::string, std::shared_ptr<Bus>> pair : mChildBusses)
+          std::lock_guard<std::recursive_mutex> lock(mChildBussesMutex);
+          std::map<std::string, std::shared_ptr<Bus>> childBusses = mChildBusses;
+          for(std::pair<std::string, std::shared_ptr<Bus>> pair : childBusses)
           {
             pair.second->Distribute(message);
           }
@@ -224,7 +228,7 @@ namespace lp
     {
       ResetPublishMessageFunction();
 
-      std::lock_guard<std::mutex> lock(mChildBussesMutex);
+      std::lock_guard<std::recursive_mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
         busPair.second->Stop();
-- 
2.43.0


From 54012411f9a480c3af94de08e8fef9b1065c8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 05/28] fix: guard the open action requests against concurrent
 access

---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 21 +++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..462c7b4 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -28,6 +28,7 @@ namespace lp
       std::shared_ptr<Subscriber> mResponseSubscriber;
       std::shared_ptr<Publisher> mRequestPublisher;
 
+      std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
     public:
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..2fb4bd0 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -30,7 +30,10 @@ namespace lp
 
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
@@ -72,12 +75,22 @@ namespace lp
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        std::map<std::string, std::function<void(messages::Datagram)>>::iterator it = mOpenRequests.find(invocationId);
+
+        if(it != mOpenRequests.end())
+        {
+          callback = it->second;
+          mOpenRequests.erase(it);
+        }
       }
 
+      if(callback != nullptr)
+      {
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From 3e4477cd8dd6ea4fe8cb873fb3d1b808e15c941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 06/28] fix: a response that arrives after a request timed out
 no longer writes to a dead stack frame

---
 include/lamppost/bus/ActionConsumer.h |  2 +
 src/lamppost/bus/ActionConsumer.cpp   | 57 +++++++++++++++++----------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 462c7b4..e83ca6f 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -31,6 +31,8 @@ namespace lp
       std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
+      std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
+
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
       ~ActionConsumer() = default;
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 2fb4bd0..f70e7f4 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -28,6 +28,13 @@ namespace lp
         throw exceptions::ArgumentNullException("callback", "Callback may not be null.");
       }
 
+      SendRequest(request, callback);
+    }
+
+    std::string ActionConsumer::SendRequest(
+      messages::Datagram request,
+      std::function<void(messages::Datagram)> callback)
+    {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
       {
@@ -40,37 +47,47 @@ namespace lp
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
+
+      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // Shared with the response callback, which may still be running when this call has given up waiting.
+      struct PendingResponse
+      {
+        std::mutex mMutex;
+        std::condition_variable mNotifier;
+        bool mReceived = false;
+        messages::Datagram mResponse;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingResponse> pending = std::make_shared<PendingResponse>();
 
-      RequestAsync(
+      std::string invocationId = SendRequest(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram response)
         {
-          if(waiting)
-          {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
-          }
+          std::lock_guard<std::mutex> lock(pending->mMutex);
+          pending->mResponse = response;
+          pending->mReceived = true;
+          pending->mNotifier.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> lock(pending->mMutex);
+      bool received = pending->mNotifier.wait_for(lock, std::chrono::milliseconds(timeoutMs),
+                                                  [pending]
+                                                  {
+                                                    return pending->mReceived;
+                                                  });
+
+      if(!received)
+      {
+        std::lock_guard<std::mutex> openRequestsLock(mOpenRequestsMutex);
+        mOpenRequests.erase(invocationId);
+      }
 
-      return response;
+      return pending->mResponse;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
-- 
2.43.0


From 7faa58a1248f9009ddb137ab66c480a44ab590b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 07/28] fix: ignore action messages without an invocation id
 instead of ending the bus

---
 include/lamppost/bus/Bus.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 833ee78..f5988ef 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -140,10 +140,13 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            // Anything can be published on the request topic; only react to properly formed requests.
+            std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            instance->ProcessRequest(invocationId, datagram);
+            if(!invocationId.empty())
+            {
+              instance->ProcessRequest(invocationId, datagram);
+            }
           });
 
         return instance;
@@ -166,10 +169,15 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
-            messages::Datagram response = datagram["response"];
+            // Anything can be published on the response topic; only react to properly formed responses.
+            std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            instance->ProcessResponse(invocationId, response);
+            if(!invocationId.empty())
+            {
+              messages::Datagram response = datagram["response"];
+
+              instance->ProcessResponse(invocationId, response);
+            }
           });
 
         return instance;
-- 
2.43.0


From 78c7a07a0effc7d5e93b5e4c52fba7b48fcb0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 08/28] fix: keep empty JSON arrays and objects instead of
 dropping them

---
 src/lamppost/messages/RawDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..e120951 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -449,6 +449,8 @@ namespace lp
         {
           json_object* jarray = jobj, *jvalue;
 
+          *root = RawDatagram(RawDatagramType::List);
+
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
           {
             jvalue = json_object_array_get_idx(jarray, i);
@@ -461,6 +463,8 @@ namespace lp
 
         case json_type_object:
         {
+          *root = RawDatagram(RawDatagramType::Dictionary);
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From e867d200c6b2716d3431f38310504822858b8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 09/28] fix: a failing list access no longer destroys the
 content of the datagram

---
 src/lamppost/messages/RawDatagram.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e120951..f35a3a4 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -129,14 +129,7 @@ namespace lp
 
     std::shared_ptr<RawDatagram>& RawDatagram::Get(unsigned int index)
     {
-      if(mType != RawDatagramType::List)
-      {
-        mType = RawDatagramType::List;
-        mDictionary.clear();
-        mValue = nullptr;
-      }
-
-      if(index >= mList.size())
+      if(mType != RawDatagramType::List || index >= mList.size())
       {
         throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
       }
-- 
2.43.0


From a6378bf5a8f577488782504d7af0d0e52770e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 10/28] fix: store string literals in datagrams as strings, not
 as booleans

---
 include/lamppost/messages/RawDatagram.h |  2 ++
 src/lamppost/messages/RawDatagram.cpp   | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/lamppost/messages/RawDatagram.h b/include/lamppost/messages/RawDatagram.h
index a70081d..9f0599d 100644
--- a/include/lamppost/messages/RawDatagram.h
+++ b/include/lamppost/messages/RawDatagram.h
@@ -63,6 +63,7 @@ namespace lp
       RawDatagram();
       RawDatagram(RawDatagramType rawDatagramType);
       RawDatagram(std::shared_ptr<DataBase> data);
+      RawDatagram(const char* value);
 
       template<typename ContentType>
       RawDatagram(ContentType contentValue)
@@ -95,6 +96,7 @@ namespace lp
 
       // Values
       RawDatagram& operator=(std::string value);
+      RawDatagram& operator=(const char* value);
       RawDatagram& operator=(int value);
       RawDatagram& operator=(double value);
       RawDatagram& operator=(bool value);
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index f35a3a4..d71ea72 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -32,6 +32,11 @@ namespace lp
     {
     }
 
+    RawDatagram::RawDatagram(const char* value)
+      : RawDatagram(std::string(value))
+    {
+    }
+
     RawDatagram::~RawDatagram()
     {
       mDictionary.clear();
@@ -237,6 +242,13 @@ namespace lp
       return *this;
     }
 
+    RawDatagram& RawDatagram::operator=(const char* value)
+    {
+      SetValue(std::string(value));
+
+      return *this;
+    }
+
     RawDatagram& RawDatagram::operator=(const std::shared_ptr<DataBase>& data)
     {
       if(mType != RawDatagramType::Value)
-- 
2.43.0


From 7bddede34dd3eaaa4ab12f46fb47f67fd864cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 11/28] fix: honor the directory filter when listing directory
 contents

---
 src/lamppost/Filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..d05f928 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -106,8 +106,8 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
-        if(filterIncludesDirectories && IsDirectory(fullPath)) {
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
+        if(filterIncludesDirectories && name != "." && name != ".." && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
       }
-- 
2.43.0


From f1b371e2660dca1a9ad55aa237b1736775d37256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 12/28] fix: compare configurations completely

---
 include/lamppost/LampPostConfiguration.h             | 4 +++-
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..7dc402b 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,9 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return
+        mPluginManagerConfiguration == other.mPluginManagerConfiguration &&
+        mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..5e89f96 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        mTemplateSearchPaths == rhs.mTemplateSearchPaths;
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From 72fa1a00541bdb4c22a3a1dd04038c3265a0bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 13/28] fix: do not cut JSON strings at embedded null
 characters

---
 src/lamppost/messages/RawDatagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index d71ea72..ab0f50d 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -447,7 +447,7 @@ namespace lp
 
         case json_type_string:
         {
-          *root = std::string(json_object_get_string(jobj));
+          *root = std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));
         } break;
 
         case json_type_array:
-- 
2.43.0


From 64fefa879b4d71e03c136aeb1ba2dac272ae63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 14/28] fix: report an instance as stopped after its shutdown

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..3b6fc01 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -140,7 +140,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From d6acf33b5aad759c8f6c90acd3bb82224ca5b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 15/28] fix: honor stop requests in every phase of an
 instance's life

---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/LampPost.cpp  | 10 +++++-----
 src/lamppost/bus/Bus.cpp   |  7 ++++++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f5988ef..d39b372 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -189,6 +189,7 @@ namespace lp
       void DeleteSubscriber(std::shared_ptr<bus::Subscriber> subscriber);
       void DeletePublisher(std::shared_ptr<bus::Publisher> publisher);
 
+      void Enable();
       void Start();
       void Run();
       void Stop();
diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 3b6fc01..54eed6b 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -10,6 +10,9 @@ namespace lp
       mRootBus(std::make_shared<bus::Bus>("root")),
       mLog("LampPost")
   {
+    // From here on, a stop request is remembered, even if it arrives before the root bus is run.
+    mRootBus->Enable();
+
     for(const std::string& configurationFile : mConfiguration.mConfigurationFiles)
     {
       mSettingsManager.ReadConfigurationFile(configurationFile);
@@ -40,9 +43,6 @@ namespace lp
     mLog.Info("Unloading templates", 1);
     mRootBus->Detach();
     mPluginManager.UnloadTemplates();
-
-    mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
@@ -132,7 +132,7 @@ namespace lp
     }
 
     mLog.Info("Starting root bus.");
-    mRootBus->Start();
+    mRootBus->Run();
     mLog.Info("Returned from running root bus.");
 
     mLog.Info("Shutting down");
@@ -145,7 +145,7 @@ namespace lp
 
   void LampPost::Stop()
   {
-    mLog.Info("Received stop signal.");
+    // This is called from signal handlers, so do not log (or lock) anything in here.
     mRootBus->Stop();
   }
 
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index c32f9ec..0caeafe 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -140,9 +140,14 @@ namespace lp
       return ContainsManagedResource(mPublishersMutex, mPublishers, std::move(publisher));
     }
 
-    void Bus::Start()
+    void Bus::Enable()
     {
       mShouldRun = true;
+    }
+
+    void Bus::Start()
+    {
+      Enable();
 
       if(mIsRootBus)
       {
-- 
2.43.0


From baa30131fbe0ea660e13acae95e5ea01cc7ec3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 16/28] fix: install the signal handlers after the instance
 they use exists

---
 src/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..77daa73 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -20,9 +20,6 @@ void HandleShutdownSignal()
 // Main
 int main(int argc, char** argv)
 {
-  std::cout << "Hooking up system calls." << std::endl;
-  HookSystemSignals();
-
   std::cout << "Starting LampPost." << std::endl;
   lp::LampPostConfiguration configuration;
 
@@ -35,6 +32,10 @@ int main(int argc, char** argv)
 
   lamppost = std::make_shared<lp::LampPost>(configuration);
 
+  // The signal handlers use the instance, so it needs to exist first.
+  std::cout << "Hooking up system calls." << std::endl;
+  HookSystemSignals();
+
   try
   {
     lamppost->Start();
-- 
2.43.0


From fc3fd4df4057c260a46822897e9f33f78c10dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 17/28] fix: malformed plugin entries in a configuration file
 no longer end the program

---
 src/lamppost/LampPost.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 54eed6b..ed33264 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -72,7 +72,11 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && config["plugins"].GetType() != messages::RawDatagramType::List)
+    {
+      mLog.Error("Error while processing configuration file: 'plugins' is not a list.");
+    }
+    else if(config.KeyExists("plugins"))
     {
       int pluginsCount = config["plugins"].GetCount();
 
@@ -85,7 +89,8 @@ namespace lp
       {
         if(config["plugins"][i].KeyExists("type"))
         {
-          std::string pluginType = config["plugins"][i]["type"];
+          // A malformed type yields an empty one, for which there is no plugin.
+          std::string pluginType = config["plugins"][i].Get<std::string>("type", "");
 
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
-- 
2.43.0


From 64825095acb2e7e9ad9666282cce23e91b84addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 18/28] fix: unload templates that failed to create an instance
 without crashing

---
 src/lamppost/plugin/PluginTemplate.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..3d618d6 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -42,7 +42,11 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Stop();
+      // Templates may fail to create an instance.
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Stop();
+      }
     }
   }
 
@@ -50,7 +54,11 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Deinitialize();
+      // Templates may fail to create an instance.
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Deinitialize();
+      }
     }
 
     mInstances.clear();
-- 
2.43.0


From 28672f3ed40b7a76ca379b4eeaca8fa8a9b2b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 19/28] fix: stop plugin instances that ended their run loop on
 their own

---
 src/lamppost/plugin/PluginInstance.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..13879b3 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -42,14 +42,11 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    mShouldRun = false;
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From 66d5fdd41a32d9cc509b26dc663abd56138c728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 20/28] fix: keep empty lists and dictionaries on the wire

---
 src/lamppost/messages/RawDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index ab0f50d..94c5f69 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -380,6 +380,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          rawDatagram->mType = RawDatagramType::List;
+
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -390,6 +392,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          rawDatagram->mType = RawDatagramType::Dictionary;
+
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
-- 
2.43.0


From 4235f868bae28f7a4d27aa7e181ff947c7ef62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 21/28] fix: reject malformed message bytes instead of crashing
 on them

---
 include/lamppost/messages/Message.h   |  3 +++
 src/lamppost/messages/Message.cpp     | 17 +++++++++++++++++
 src/lamppost/messages/RawDatagram.cpp | 15 ++++++++++++---
 src/plugins/link/Link.cpp             | 11 +++++++++--
 4 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/include/lamppost/messages/Message.h b/include/lamppost/messages/Message.h
index c1d89a9..55d4195 100644
--- a/include/lamppost/messages/Message.h
+++ b/include/lamppost/messages/Message.h
@@ -9,6 +9,7 @@
 #include <flatbuffers/util.h>
 
 #include <lamppost/data/RawBytes.h>
+#include <lamppost/exceptions/InvalidOperationException.h>
 #include <lamppost/messages/Datagram.h>
 #include <lamppost/schemas/FBMessage_generated.h>
 
@@ -20,6 +21,8 @@ namespace lp
     class Message
     {
     private:
+      static const unsigned int MAX_DESERIALIZATION_DEPTH = 4096;
+
       std::string mSender;
       std::string mTopic;
       Datagram mDatagram;
diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..0acc97d 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -43,8 +43,25 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      // The bytes may come from anywhere, so do not trust them.
+      flatbuffers::Verifier verifier(
+        static_cast<const uint8_t*>(bytesToDeserialize->GetContent()),
+        bytesToDeserialize->GetSize(),
+        MAX_DESERIALIZATION_DEPTH,
+        bytesToDeserialize->GetSize());
+
+      if(!schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::InvalidOperationException("The bytes do not represent a message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
 
+      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr)
+      {
+        throw exceptions::InvalidOperationException("The message lacks a sender or a topic.");
+      }
+
       return messages::Message(
         deserializedMessage->sender()->str(),
         deserializedMessage->topic()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 94c5f69..247fd1b 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -354,6 +354,11 @@ namespace lp
     {
       std::shared_ptr<RawDatagram> rawDatagram = std::make_shared<RawDatagram>();
 
+      if(structure == nullptr)
+      {
+        return rawDatagram;
+      }
+
       switch(structure->datagram_type())
       {
         case schemas::DatagramType::DatagramType_Value:
@@ -361,7 +366,7 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
-              rawDatagram->SetValue<std::string>(structure->string_content()->str());
+              rawDatagram->SetValue<std::string>(structure->string_content() != nullptr ? structure->string_content()->str() : "");
               break;
 
             case schemas::ValueType::ValueType_Double:
@@ -382,7 +387,7 @@ namespace lp
         {
           rawDatagram->mType = RawDatagramType::List;
 
-          unsigned int length = structure->list_content()->size();
+          unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;
 
           for(unsigned int i = 0; i < length; ++i)
           {
@@ -394,7 +399,11 @@ namespace lp
         {
           rawDatagram->mType = RawDatagramType::Dictionary;
 
-          unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          unsigned int length = 0;
+          if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)
+          {
+            length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          }
 
           for(unsigned int i = 0; i < length; ++i)
           {
diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..72a1421 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -233,8 +233,15 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(const exceptions::InvalidOperationException& exception)
+          {
+            mLog.Warning("Dropping malformed message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From d80f3b589e174fd355eca9f09e30b61025dfbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 22/28] fix: write log lines at once, so that those of plugin
 libraries do not mix in

---
 src/lamppost/log/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/log/Log.cpp b/src/lamppost/log/Log.cpp
index 95ca399..f4cf593 100644
--- a/src/lamppost/log/Log.cpp
+++ b/src/lamppost/log/Log.cpp
@@ -11,7 +11,8 @@ namespace lp
     {
       std::lock_guard<std::mutex> lock(sSynchronizationMutex);
 
-      std::cout << line << std::endl;
+      // Plugin libraries have a mutex of their own, so their lines are only kept apart by writing each one at once.
+      std::cout << line + "\n" << std::flush;
     }
 
     void Log::Write(std::string prefix, std::string message, int indentationLevel, int /*color*/)
-- 
2.43.0


From 2a0c5d1dd3acf3e2c3d85c4ea92f95c18f116b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 23/28] fix: skip plugin libraries that report no information

---
 src/lamppost/plugin/PluginManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..863fc40 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
-- 
2.43.0


From 0b679fee1c499f5b52bc2e82157b589d58b9d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 24/28] fix: shutting a link down no longer hangs when its peer
 went away

---
 src/plugins/link/Link.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 72a1421..be3b511 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -105,6 +105,12 @@ namespace lp
       {
         mLog.Error("Failed to create ZMQ socket: " + std::string(zmq_strerror(zmq_errno())));
       }
+      else
+      {
+        // Without a limit, shutting down waits forever for messages to reach a peer that went away.
+        int lingerMilliseconds = 100;
+        zmq_setsockopt(socket, ZMQ_LINGER, &lingerMilliseconds, sizeof(lingerMilliseconds));
+      }
 
       return socket;
     }
-- 
2.43.0


From 8ce0ef74033285522786fd8153473a1def8b11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 25/28] fix: do not unload plugin libraries while the bus still
 holds objects of theirs

---
 include/lamppost/plugin/PluginManager.h | 2 ++
 src/lamppost/plugin/PluginManager.cpp   | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/lamppost/plugin/PluginManager.h b/include/lamppost/plugin/PluginManager.h
index a502f41..41b6bce 100644
--- a/include/lamppost/plugin/PluginManager.h
+++ b/include/lamppost/plugin/PluginManager.h
@@ -3,6 +3,7 @@
 
 
 #include <iostream>
+#include <list>
 #include <map>
 #include <memory>
 #include <string>
@@ -76,6 +77,7 @@ namespace lp
 
     PluginManagerConfiguration mConfiguration;
     std::map<std::string, PluginTemplateDescription> mTemplates;
+    std::list<PluginLibraryHandle> mUnusedLibraryHandles;
     log::Log mLog;
 
     #pragma endregion
diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 863fc40..5571f65 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -33,6 +33,11 @@ namespace lp
   {
     UnloadTemplates();
     mConfiguration.mBus = nullptr;
+
+    for(const PluginLibraryHandle& libraryHandle : mUnusedLibraryHandles)
+    {
+      ClosePluginLibrary(libraryHandle);
+    }
   }
 
   void PluginManager::AddTemplateSearchPath(std::string templateSearchPath)
@@ -190,7 +195,9 @@ namespace lp
         mLog.Info(templatePair.first, 1);
 
         templatePair.second.mTemplate->Unload();
-        ClosePluginLibrary(templatePair.second.mLibraryHandle);
+
+        // The bus may still hold participants that were created by the library's code, so close it only after that's gone.
+        mUnusedLibraryHandles.push_back(templatePair.second.mLibraryHandle);
       }
 
       mTemplates.clear();
-- 
2.43.0


From cbc6a59e6a0a61b9f27a2c8322f647604b346f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 26/28] fix: signals that arrive while the program exits no
 longer use the destroyed instance

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 77daa73..130c3a9 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -47,6 +47,10 @@ int main(int argc, char** argv)
     throw;
   }
 
+  // The instance is about to be destroyed, so signals that arrive from here on must not use it anymore.
+  std::signal(SIGINT, SIG_IGN);
+  std::signal(SIGTERM, SIG_IGN);
+
   std::cout << "Exiting gracefully." << std::endl;
 
   return EXIT_SUCCESS;
-- 
2.43.0


From 38248cee192396637a892a5085bc186bd56a89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 27/28] fix: messages without a text on /sysinfo no longer end
 the host

---
 src/plugins/sysinfo/SysInfo.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..ae8da90 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,8 +21,11 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
-          mLog.Info("Got it: " + message);
+          // Anything can be published on this topic, so show what is not a text as it is printed.
+          std::stringstream sts;
+          sts << datagram;
+
+          mLog.Info("Got it: " + datagram.Get<std::string>("", sts.str()));
         });
 
       mSysInfoActionProvider = GetActionProvider(
-- 
2.43.0


From 14bfcb00bf5a9a3af5594ca2587cbca4d6bc005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:12 +0000
Subject: [PATCH 28/28] fix: name the missing argument when a bus is created
 without a publishing function

---
 src/lamppost/bus/Bus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 0caeafe..effbba4 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -39,7 +39,7 @@ namespace lp
 
       if(publishMessageFunction == nullptr)
       {
-        throw exceptions::ArgumentNullException("name", "Bus publishing function may not be null.");
+        throw exceptions::ArgumentNullException("publishMessageFunction", "Bus publishing function may not be null.");
       }
     }
 
-- 
2.43.0

