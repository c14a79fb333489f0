From 64ab5d2ebc143c6b848eb178aad6fed3d150dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 1/9] fix: SmallBuffer::swap left the second buffer pointing at
 the first one's inline storage

---
 src/helics/core/SmallBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6e958a1..6a407d8 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -361,7 +361,7 @@ class SmallBuffer {
             nonOwning = sb2.nonOwning;
             sb2.usingAllocatedBuffer = false;
             sb2.nonOwning = false;
-            sb2.heap = buffer.data();
+            sb2.heap = sb2.buffer.data();
             sb2.bufferCapacity = 64;
 
             std::memcpy(sb2.heap, buffer.data(), bufferSize);
-- 
2.43.0


From aa56c61337ca141dd2874ebc9e6888190f0cc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 2/9] fix: SmallBuffer assignment from part of its own contents
 used an overlapping memcpy

---
 src/helics/core/SmallBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6a407d8..0ee0a0c 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -152,7 +152,7 @@ class SmallBuffer {
         }
         resize(val.size());
         if (val.size() > 0) {
-            std::memcpy(heap, val.data(), val.size());
+            std::memmove(heap, val.data(), val.size());
         }
         return *this;
     }
@@ -196,13 +196,13 @@ class SmallBuffer {
         const auto* st1 = reinterpret_cast<const std::byte*>(start);
         const auto* end1 = reinterpret_cast<const std::byte*>(end);
         resize(end1 - st1);
-        std::memcpy(heap, st1, end1 - st1);
+        std::memmove(heap, st1, end1 - st1);
     }
     void assign(const void* start, std::size_t size)
     {
         const auto* st1 = reinterpret_cast<const std::byte*>(start);
         resize(size);
-        std::memcpy(heap, st1, size);
+        std::memmove(heap, st1, size);
     }
     void append(const void* start, const void* end)
     {
-- 
2.43.0


From b698d1aa24550a1672628a9826bdcd7d893d0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 3/9] fix: SmallBuffer::append of its own bytes read freed
 storage after reallocating

---
 src/helics/core/SmallBuffer.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 0ee0a0c..0c11674 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -212,23 +212,21 @@ class SmallBuffer {
         }
         const auto* st1 = reinterpret_cast<const std::byte*>(start);
         const auto* end1 = reinterpret_cast<const std::byte*>(end);
-        auto csize = bufferSize;
-        resize(bufferSize + (end1 - st1));
-        std::memcpy(heap + csize, st1, end1 - st1);
+        append(start, static_cast<std::size_t>(end1 - st1));
     }
     void append(const void* start, std::size_t size)
     {
         const auto* st1 = reinterpret_cast<const std::byte*>(start);
         auto csize = bufferSize;
+        // the source may be part of this buffer, in which case it moves if the storage is replaced
+        const bool internal = (st1 >= heap && st1 < heap + csize);
+        const std::size_t offset = internal ? static_cast<std::size_t>(st1 - heap) : 0;
         resize(bufferSize + size);
-        std::memcpy(heap + csize, st1, size);
+        std::memcpy(heap + csize, internal ? heap + offset : st1, size);
     }
     void append(std::string_view data)
     {
-        const auto* st1 = reinterpret_cast<const std::byte*>(data.data());
-        auto csize = bufferSize;
-        resize(bufferSize + data.size());
-        std::memcpy(heap + csize, st1, data.size());
+        append(data.data(), data.size());
     }
 
     void push_back(char c) { append(&c, 1); }
-- 
2.43.0


From 2b0bbe060458703d33fe15422fe48f3f38425bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 4/9] fix: CMD_BROKER_PING must be the broker ping command, not
 the priority broker setup command

---
 src/helics/core/ActionMessageDefintions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessageDefintions.hpp b/src/helics/core/ActionMessageDefintions.hpp
index 682ddd0..3b106f0 100644
--- a/src/helics/core/ActionMessageDefintions.hpp
+++ b/src/helics/core/ActionMessageDefintions.hpp
@@ -234,7 +234,7 @@ across different compilers*/
 #define CMD_PING action_message_def::action_t::cmd_ping
 #define CMD_PING_PRIORITY action_message_def::action_t::cmd_ping_priority
 
-#define CMD_BROKER_PING action_message_def::action_t::cmd_broker_setup
+#define CMD_BROKER_PING action_message_def::action_t::cmd_broker_ping
 #define CMD_PING_REPLY action_message_def::action_t::cmd_ping_reply
 #define CMD_BROKER_SETUP action_message_def::action_t::cmd_broker_setup
 #define CMD_BROKER_LOCATION action_message_def::action_t::cmd_broker_location
-- 
2.43.0


From c24c55ea28c5ede4ab974f220e177e0712e8abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 5/9] fix: MULTIPLE_CONNECTIONS_ALLOWED on publications and
 endpoints was inverted (allowing several connections required a single one)

---
 src/helics/core/EndpointInfo.cpp    | 2 +-
 src/helics/core/PublicationInfo.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/EndpointInfo.cpp b/src/helics/core/EndpointInfo.cpp
index 33dd21e..6893a70 100644
--- a/src/helics/core/EndpointInfo.cpp
+++ b/src/helics/core/EndpointInfo.cpp
@@ -368,7 +368,7 @@ void EndpointInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::CONNECTIONS:
             requiredConnections = value;
diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 59958a0..1865399 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -86,7 +86,7 @@ void PublicationInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::BUFFER_DATA:
             buffer_data = bvalue;
-- 
2.43.0


From 930e15e1a57ac37f9a3c044f5b140f0a17e4b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 6/9] fix: target listings of publications and endpoints stayed
 stale after connections changed

---
 src/helics/core/EndpointInfo.cpp    | 6 ++++++
 src/helics/core/PublicationInfo.cpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/helics/core/EndpointInfo.cpp b/src/helics/core/EndpointInfo.cpp
index 6893a70..cec2165 100644
--- a/src/helics/core/EndpointInfo.cpp
+++ b/src/helics/core/EndpointInfo.cpp
@@ -187,6 +187,7 @@ void EndpointInfo::addDestination(GlobalHandle dest,
         }
     }
     targetInformation.emplace_back(dest, destName, destType);
+    destinationTargets.clear();
     /** now update the target information*/
     targets.reserve(targetInformation.size());
     targets.clear();
@@ -206,6 +207,7 @@ void EndpointInfo::addSource(GlobalHandle source,
         }
     }
     sourceInformation.emplace_back(source, sourceName, sourceType);
+    sourceTargets.clear();
 }
 
 /** remove a target from connection*/
@@ -219,6 +221,7 @@ void EndpointInfo::removeTarget(GlobalHandle targetId)
                                              });
         if (removeIterator != targetInformation.end()) {
             targetInformation.erase(removeIterator, targetInformation.end());
+            destinationTargets.clear();
             targets.clear();
             for (const auto& targetInfo : targetInformation) {
                 targets.emplace_back(targetInfo.id, targetInfo.key);
@@ -231,6 +234,7 @@ void EndpointInfo::removeTarget(GlobalHandle targetId)
                            sourceInformation.end(),
                            [targetId](const auto& sinfo) { return sinfo.id == targetId; });
         sourceInformation.erase(removeIterator, sourceInformation.end());
+        sourceTargets.clear();
     }
 }
 
@@ -244,6 +248,7 @@ void EndpointInfo::disconnectFederate(GlobalFederateId fedToDisconnect)
                                              });
         if (removeIterator != targetInformation.end()) {
             targetInformation.erase(removeIterator, targetInformation.end());
+            destinationTargets.clear();
             targets.clear();
             for (const auto& targetInfo : targetInformation) {
                 targets.emplace_back(targetInfo.id, targetInfo.key);
@@ -257,6 +262,7 @@ void EndpointInfo::disconnectFederate(GlobalFederateId fedToDisconnect)
                                                  return sinfo.id.fed_id == fedToDisconnect;
                                              });
         sourceInformation.erase(removeIterator, sourceInformation.end());
+        sourceTargets.clear();
     }
 }
 const std::string& EndpointInfo::getSourceTargets() const
diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 1865399..8b47640 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -46,6 +46,7 @@ bool PublicationInfo::addSubscriber(GlobalHandle newSubscriber, std::string_view
         }
     }
     subscribers.emplace_back(newSubscriber, subscriberName);
+    destTargets.clear();
     return true;
 }
 
@@ -57,6 +58,7 @@ void PublicationInfo::disconnectFederate(GlobalFederateId fedToDisconnect)
                                          return val.id.fed_id == fedToDisconnect;
                                      }),
                       subscribers.end());
+    destTargets.clear();
 }
 
 void PublicationInfo::removeSubscriber(GlobalHandle subscriberToRemove)
@@ -67,6 +69,7 @@ void PublicationInfo::removeSubscriber(GlobalHandle subscriberToRemove)
                                          return val.id == subscriberToRemove;
                                      }),
                       subscribers.end());
+    destTargets.clear();
 }
 
 void PublicationInfo::setProperty(int32_t option, int32_t value)
-- 
2.43.0


From e39019f8e7ebd1a800a25d5615b95dbe186a82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 7/9] fix: a source reconnecting to an input stored its units
 as its type

---
 src/helics/core/InputInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 3c7a6f5..1ff5545 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -192,7 +192,7 @@ bool InputInfo::addSource(GlobalHandle newSource,
                 // this is a reconnection
                 deactivated[index] = Time::maxVal();
                 source_info[index].units = sunits;
-                source_info[index].type = sunits;
+                source_info[index].type = stype;
                 return true;
             }
             return false;
-- 
2.43.0


From a8819d201a134c6031920c5d6ff46ae724702e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 8/9] fix: an iteration update of an input compared the
 iteration of an earlier time, withholding values of the first iteration at
 the new time

---
 src/helics/core/InputInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 1ff5545..d898edc 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -412,7 +412,9 @@ bool InputInfo::updateTimeNextIteration(Time newTime)
         }
         if (currentValue != it_final) {
             if (currentValue->time == newTime) {
-                auto cindex = last->iteration;
+                // values from before newTime say nothing about the iteration at newTime
+                auto cindex =
+                    (last->time == newTime) ? last->iteration : currentValue->iteration;
                 while ((currentValue != it_final) && (currentValue->time == newTime) &&
                        (currentValue->iteration == cindex)) {
                     last = currentValue;
-- 
2.43.0


From 29b71df5794e6b903e59bbe7f2f2460f87140cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 9/9] fix: the cached source, type and unit listings of an
 input stayed stale after sources were added

---
 src/helics/core/InputInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index d898edc..10cb678 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -190,6 +190,8 @@ bool InputInfo::addSource(GlobalHandle newSource,
         if (is == newSource) {
             if (deactivated[index] < Time::maxVal()) {
                 // this is a reconnection
+                inputUnits.clear();
+                inputType.clear();
                 deactivated[index] = Time::maxVal();
                 source_info[index].units = sunits;
                 source_info[index].type = stype;
@@ -202,6 +204,7 @@ bool InputInfo::addSource(GlobalHandle newSource,
     // clear this since it isn't well defined what the units are once a new source is added
     inputUnits.clear();
     inputType.clear();
+    sourceTargets.clear();
     input_sources.push_back(newSource);
     source_info.emplace_back(sourceName, stype, sunits);
     data_queues.resize(input_sources.size());
-- 
2.43.0

