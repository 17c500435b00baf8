From f2e531c729a2fc5b1b05501f1ee9af8e203615ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 01/37] fix: reject truncated field values instead of reading
 past the buffer

---
 libamqpprox/amqpprox_types.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index e0252b5..17ff755 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,31 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// The number of octets an integral field value of the given type occupies, or
+// zero for types whose length is checked while decoding them
+std::size_t fixedValueOctets(char type)
+{
+    switch (type) {
+    case 't':
+    case 'b':
+    case 'B':
+        return sizeof(uint8_t);
+    case 'U':
+    case 's':
+    case 'u':
+        return sizeof(uint16_t);
+    case 'I':
+    case 'i':
+        return sizeof(uint32_t);
+    case 'l':
+    case 'L':
+    case 'T':
+        return sizeof(uint64_t);
+    default:
+        return 0;
+    }
+}
+
 template <typename T>
 bool decodeString(std::string *string, Buffer &buffer)
 {
@@ -133,7 +158,15 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
 {
     assert(outValue != nullptr);
 
+    if (buffer.available() < sizeof(char)) {
+        return false;
+    }
+
     char type = buffer.copy<char>();
+    if (buffer.available() < fixedValueOctets(type)) {
+        return false;
+    }
+
     switch (type) {
     case 't':  // boolean
     {
-- 
2.43.0


From 0ffd8114a3eef71fe96936b499141510269aa6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 02/37] fix: fail field table and array encoding when their
 length does not fit

---
 libamqpprox/amqpprox_types.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 17ff755..f3f1429 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -454,6 +454,9 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
                              const std::vector<FieldValue> &vector)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
@@ -502,6 +505,9 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
 bool Types::encodeFieldTable(Buffer &buffer, const FieldTable &table)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
-- 
2.43.0


From f87c61cd7a49ae6a2453dda85e24b5019e99b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 03/37] fix: refuse oversized frames also when they arrive in
 one read

---
 libamqpprox/amqpprox_frame.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libamqpprox/amqpprox_frame.cpp b/libamqpprox/amqpprox_frame.cpp
index 1fbc5b0..07004d2 100644
--- a/libamqpprox/amqpprox_frame.cpp
+++ b/libamqpprox/amqpprox_frame.cpp
@@ -53,15 +53,16 @@ bool Frame::decode(Frame       *frame,
     memcpy(&frame->channel, &buffer[1], sizeof frame->channel);
     memcpy(&frame->length, &buffer[3], sizeof frame->length);
 
+    if ((frameOverhead() + frame->length) > getMaxFrameSize()) {
+        LOG_ERROR << "Frame: " << (int)frame->type << " " << frame->channel
+                  << " was declared to be longer than max frame size ("
+                  << frame->length << " vs " << getMaxFrameSize()
+                  << "). Cannot decode.";
+        throw std::runtime_error(
+            "Cannot decode huge frame. See log for details");
+    }
+
     if ((frameOverhead() + frame->length) > bufferLen) {
-        if ((frameOverhead() + frame->length) > getMaxFrameSize()) {
-            LOG_ERROR << "Frame: " << (int)frame->type << " " << frame->channel
-                      << " was declared to be longer than max frame size ("
-                      << frame->length << " vs " << getMaxFrameSize()
-                      << "). Cannot decode.";
-            throw std::runtime_error(
-                "Cannot decode huge frame. See log for details");
-        }
         return false;
     }
 
-- 
2.43.0


From 815fa21fc393dd11e1c99a1b68f4930d98c98786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 04/37] fix: bound the nesting of decoded field tables and
 arrays

---
 libamqpprox/amqpprox_types.cpp | 32 +++++++++++++++++++++++++-------
 libamqpprox/amqpprox_types.h   | 14 +++++++++++---
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index f3f1429..5875c9c 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,10 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// Tables and arrays nested deeper than this are refused, the recursion needed
+// to handle them would otherwise be limited only by the stack
+const std::size_t MAX_NESTING = 100;
+
 // The number of octets an integral field value of the given type occupies, or
 // zero for types whose length is checked while decoding them
 std::size_t fixedValueOctets(char type)
@@ -154,7 +158,9 @@ bool Types::encodeByteVector(Buffer                     &buffer,
     return true;
 }
 
-bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
+bool Types::decodeFieldValue(FieldValue *outValue,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
     assert(outValue != nullptr);
 
@@ -251,7 +257,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'A':  // field-array
     {
         std::vector<FieldValue> val;
-        if (!decodeFieldArray(&val, buffer)) {
+        if (!decodeFieldArray(&val, buffer, depth)) {
             return false;
         }
         FieldValue value(type, val);
@@ -265,7 +271,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'F':  // field-table
     {
         auto sp = std::make_shared<FieldTable>();
-        if (!decodeFieldTable(sp.get(), buffer)) {
+        if (!decodeFieldTable(sp.get(), buffer, depth)) {
             return false;
         }
         FieldValue value(type, sp);
@@ -424,10 +430,16 @@ bool Types::encodeFieldValue(Buffer &buffer, const FieldValue &fv)
     return true;
 }
 
-bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
+bool Types::decodeFieldArray(std::vector<FieldValue> *vector,
+                             Buffer                  &buffer,
+                             std::size_t              depth)
 {
     assert(vector != nullptr);
 
+    if (depth > MAX_NESTING) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -440,7 +452,7 @@ bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
     auto arrayBuffer = buffer.consume(arrayLength);
     while (arrayBuffer.available() > 0) {
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, arrayBuffer)) {
+        if (!decodeFieldValue(&value, arrayBuffer, depth + 1)) {
             return false;
         }
 
@@ -474,8 +486,14 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
     return true;
 }
 
-bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
+bool Types::decodeFieldTable(FieldTable *table,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
+    if (depth > MAX_NESTING) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -493,7 +511,7 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
         }
 
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, tBuffer)) {
+        if (!decodeFieldValue(&value, tBuffer, depth + 1)) {
             return false;
         }
 
diff --git a/libamqpprox/amqpprox_types.h b/libamqpprox/amqpprox_types.h
index a66fcd0..0c177e2 100644
--- a/libamqpprox/amqpprox_types.h
+++ b/libamqpprox/amqpprox_types.h
@@ -102,9 +102,12 @@ class Types {
      * type
      * \param value AMQP field type stored as `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of tables and arrays enclosing the value
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldValue(FieldValue *value, Buffer &buffer);
+    static bool decodeFieldValue(FieldValue *value,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field type and write the data into the specified
@@ -121,10 +124,12 @@ class Types {
      * \param vector AMQP field type array stored as std::vector of
      * `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of tables and arrays enclosing the array
      * \return true in case of success, otherwise false
      */
     static bool decodeFieldArray(std::vector<FieldValue> *vector,
-                                 Buffer                  &buffer);
+                                 Buffer                  &buffer,
+                                 std::size_t              depth = 0);
 
     /**
      * \brief Encode AMQP field type array and write the data into the
@@ -141,9 +146,12 @@ class Types {
      * table type
      * \param table AMQP field table type stored as `FieldTable`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of tables and arrays enclosing the table
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldTable(FieldTable *table, Buffer &buffer);
+    static bool decodeFieldTable(FieldTable *table,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field table and write the data into the specified
-- 
2.43.0


From 37b637637d8823c46cdb593a983dfebbeaf1f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:33 +0000
Subject: [PATCH 05/37] fix: do not act on method frames too short to carry a
 method

---
 libamqpprox/amqpprox_packetprocessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index 59959f8..dec2107 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -87,7 +87,11 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
 
         if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {
             Method method;
-            Method::decode(&method, frame.payload, frame.length);
+            if (!Method::decode(&method, frame.payload, frame.length)) {
+                LOG_WARN << "Ignoring method frame too short for a method: "
+                         << frame.length << " bytes";
+                continue;
+            }
 
             LOG_TRACE << ((direction == FlowType::INGRESS) ? "->" : "<-")
                       << " Frame: TYPE=" << (int)frame.type
-- 
2.43.0


From 62a31b9924ebab573caba600062f1dbcd8aaa384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 06/37] fix: pass on a Close the broker answers Open with

---
 libamqpprox/amqpprox_connector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 61e0111..7f3d83b 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -239,6 +239,12 @@ void Connector::receive(const Method &method, FlowType direction)
                 d_connectionReadyHandler();
             }
         }
+        else if (method.methodType == methods::Close::methodType() &&
+                 direction == FlowType::EGRESS) {
+            // The server refused the Open: this always throws, so that the
+            // received Close is sent on to the client
+            decodeMethod(&d_openOk, method, methodPayload, direction);
+        }
     } break;
     case State::CLIENT_CLOSE_SENT: {
         if (direction == FlowType::INGRESS &&
-- 
2.43.0


From 079ce8ea392e37171262efe5eedaee8e05d04955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:12 +0000
Subject: [PATCH 07/37] fix: count each connection attempt once when rotating
 over a farm

---
 libamqpprox/amqpprox_connectionmanager.cpp | 10 ++++++++--
 libamqpprox/amqpprox_connectionmanager.h   |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_connectionmanager.cpp b/libamqpprox/amqpprox_connectionmanager.cpp
index 1fa0892..7f1d541 100644
--- a/libamqpprox/amqpprox_connectionmanager.cpp
+++ b/libamqpprox/amqpprox_connectionmanager.cpp
@@ -38,8 +38,14 @@ ConnectionManager::ConnectionManager(std::shared_ptr<BackendSet> backendSet,
 const Backend *ConnectionManager::getConnection(uint64_t retryCount) const
 {
     if (d_backendSelector_p) {
-        return d_backendSelector_p->select(
-            d_backendSet.get(), d_markerSnapshot, retryCount);
+        if (!d_selected || d_selected->first != retryCount) {
+            d_selected = std::make_pair(
+                retryCount,
+                d_backendSelector_p->select(
+                    d_backendSet.get(), d_markerSnapshot, retryCount));
+        }
+
+        return d_selected->second;
     }
     else {
         // The ConnectionManager must handle the special case where a vhost has
diff --git a/libamqpprox/amqpprox_connectionmanager.h b/libamqpprox/amqpprox_connectionmanager.h
index 8ee315b..a0f7430 100644
--- a/libamqpprox/amqpprox_connectionmanager.h
+++ b/libamqpprox/amqpprox_connectionmanager.h
@@ -20,6 +20,8 @@
 
 #include <cstdint>
 #include <memory>
+#include <optional>
+#include <utility>
 #include <vector>
 
 namespace Bloomberg {
@@ -53,6 +55,10 @@ class ConnectionManager {
     std::vector<BackendSet::Marker> d_markerSnapshot;
     BackendSelector                *d_backendSelector_p;  // HELD NOT OWNED
 
+    // The last selection made, so that asking again for the candidate being
+    // attempted doesn't count as another use of the `BackendSet`
+    mutable std::optional<std::pair<uint64_t, const Backend *>> d_selected;
+
   public:
     // CREATORS
     /**
@@ -96,7 +102,8 @@ class ConnectionManager {
      * defined by the `BackendSet` backing this instance. The order in which
      * the candidates will be returned is defined by the `BackendSelector` and
      * `Marker` snapshot. If there are no valid `Backend` instances to connect
-     * to, this method will return `nullptr`.
+     * to, this method will return `nullptr`. Calling this method again with
+     * the same `retryCount` returns the same candidate.
      */
     const Backend *getConnection(uint64_t retryCount) const;
 };
-- 
2.43.0


From d43089109533b51e07e575f022150f83dfa364d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:26 +0000
Subject: [PATCH 08/37] fix: cut the reply text of Close errors to a short
 string

---
 libamqpprox/amqpprox_connector.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 7f3d83b..3872850 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -336,8 +336,13 @@ void Connector::synthesizeCustomCloseError(bool             sendToIngressSide,
                                            uint16_t         classId,
                                            uint16_t         methodId)
 {
-    synthesizeMessage(
-        d_close, sendToIngressSide, code, text, classId, methodId);
+    // The reply text is a short string on the wire
+    synthesizeMessage(d_close,
+                      sendToIngressSide,
+                      code,
+                      text.substr(0, Constants::shortStringLimit()),
+                      classId,
+                      methodId);
 }
 
 Buffer Connector::outBuffer()
-- 
2.43.0


From 29cb8b6070ba0e959c41ce98d651b799eba01157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:52 +0000
Subject: [PATCH 09/37] fix: stop farms from handing out deleted backends

---
 amqpprox/amqpprox.m.cpp                        |  2 +-
 libamqpprox/amqpprox_backendcontrolcommand.cpp | 12 +++++++++++-
 libamqpprox/amqpprox_backendcontrolcommand.h   |  6 ++++--
 libamqpprox/amqpprox_backendstore.cpp          |  2 +-
 libamqpprox/amqpprox_backendstore.h            | 10 ++++++++--
 libamqpprox/amqpprox_farm.cpp                  |  6 +++++-
 6 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/amqpprox/amqpprox.m.cpp b/amqpprox/amqpprox.m.cpp
index 2a114d6..8b692b2 100644
--- a/amqpprox/amqpprox.m.cpp
+++ b/amqpprox/amqpprox.m.cpp
@@ -233,7 +233,7 @@ int main(int argc, char *argv[])
                                           &backendStore,
                                           &backendSelectorStore,
                                           &partitionPolicyStore)),
-        CommandPtr(new BackendControlCommand(&backendStore)),
+        CommandPtr(new BackendControlCommand(&backendStore, &farmStore)),
         CommandPtr(
             new MapControlCommand(&resourceMapper, &connectionSelector)),
         CommandPtr(new VhostControlCommand(&vhostState)),
diff --git a/libamqpprox/amqpprox_backendcontrolcommand.cpp b/libamqpprox/amqpprox_backendcontrolcommand.cpp
index ecec1d9..c5af1a1 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_backendcontrolcommand.cpp
@@ -18,6 +18,7 @@
 #include <amqpprox_backendstore.h>
 #include <amqpprox_constants.h>
 #include <amqpprox_control.h>
+#include <amqpprox_farmstore.h>
 
 #include <sstream>
 #include <string>
@@ -28,8 +29,10 @@
 namespace Bloomberg {
 namespace amqpprox {
 
-BackendControlCommand::BackendControlCommand(BackendStore *store)
+BackendControlCommand::BackendControlCommand(BackendStore *store,
+                                             FarmStore    *farmStore)
 : d_store_p(store)
+, d_farmStore_p(farmStore)
 {
 }
 
@@ -110,6 +113,9 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
                        << "', error code: " << rc;
                 return;
             }
+
+            // The backend might be a member of a farm already
+            d_farmStore_p->repartitionAll();
         }
         else {
             output << "Arguments not correctly provided";
@@ -126,7 +132,11 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
             if (rc) {
                 output << "Delete failed to remove '" << name << "', rcode "
                        << rc;
+                return;
             }
+
+            // Farms must not hand out the removed backend any longer
+            d_farmStore_p->repartitionAll();
         }
     }
     else if (subcommand == "PRINT") {
diff --git a/libamqpprox/amqpprox_backendcontrolcommand.h b/libamqpprox/amqpprox_backendcontrolcommand.h
index f07654c..3c5086f 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.h
+++ b/libamqpprox/amqpprox_backendcontrolcommand.h
@@ -22,15 +22,17 @@ namespace Bloomberg {
 namespace amqpprox {
 
 class BackendStore;
+class FarmStore;
 
 /**
  * \brief Represents a backend control command
  */
 class BackendControlCommand : public ControlCommand {
-    BackendStore *d_store_p;  // HELD NOT OWNED
+    BackendStore *d_store_p;      // HELD NOT OWNED
+    FarmStore    *d_farmStore_p;  // HELD NOT OWNED
 
   public:
-    explicit BackendControlCommand(BackendStore *store);
+    BackendControlCommand(BackendStore *store, FarmStore *farmStore);
 
     /**
      * \return Command verb this handles
diff --git a/libamqpprox/amqpprox_backendstore.cpp b/libamqpprox/amqpprox_backendstore.cpp
index 55bce56..54af864 100644
--- a/libamqpprox/amqpprox_backendstore.cpp
+++ b/libamqpprox/amqpprox_backendstore.cpp
@@ -48,7 +48,7 @@ int BackendStore::remove(const std::string &name)
 
     std::lock_guard<std::mutex> lg(d_mutex);
     auto addrKey = std::make_pair(backend->ip(), backend->port());
-    d_backends.erase(name);
+    d_removed.push_back(d_backends.extract(name));
     return 0;
 }
 
diff --git a/libamqpprox/amqpprox_backendstore.h b/libamqpprox/amqpprox_backendstore.h
index 071a468..b644759 100644
--- a/libamqpprox/amqpprox_backendstore.h
+++ b/libamqpprox/amqpprox_backendstore.h
@@ -22,6 +22,7 @@
 #include <map>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -30,8 +31,13 @@ namespace amqpprox {
  * \brief Represents Backend store
  */
 class BackendStore {
-    std::unordered_map<std::string, Backend> d_backends;
-    mutable std::mutex                       d_mutex;
+    using BackendMap = std::unordered_map<std::string, Backend>;
+
+    BackendMap d_backends;
+    // Removed backends are kept: connections being established might still
+    // refer to them
+    std::vector<BackendMap::node_type> d_removed;
+    mutable std::mutex                 d_mutex;
 
   public:
     BackendStore();
diff --git a/libamqpprox/amqpprox_farm.cpp b/libamqpprox/amqpprox_farm.cpp
index 2ddf61a..728802c 100644
--- a/libamqpprox/amqpprox_farm.cpp
+++ b/libamqpprox/amqpprox_farm.cpp
@@ -86,7 +86,11 @@ void Farm::doRepartitionWhileLocked(std::lock_guard<std::mutex> & /* guard */)
 
     // Create the initial partition
     for (const auto &member : d_backendMembers) {
-        initialPartition.push_back(d_backendStore_p->lookup(member));
+        // Members might have been removed from the store since
+        const Backend *backend = d_backendStore_p->lookup(member);
+        if (backend) {
+            initialPartition.push_back(backend);
+        }
     }
 
     auto newSet = std::make_shared<BackendSet>(std::move(partitions));
-- 
2.43.0


From b807d55feb35130409a6897f3dbfe0220b7bf048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 10/37] fix: use a new socket for each endpoint a connection is
 attempted to

---
 libamqpprox/amqpprox_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9dca7b4..eadec15 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -996,6 +996,11 @@ void Session::handleConnectionError(
              << "' error_code=" << TlsUtil::augmentTlsError(ec)
              << " conn=" << ConnectionSummary(*this);
 
+    // The next endpoint might be of another address family, for which this
+    // socket couldn't be used
+    boost::system::error_code closeEc;
+    d_clientSocket->close(closeEc);
+
     attemptResolvedConnection(connectionManager);
 }
 
-- 
2.43.0


From d51b73344431b3bdd2743a9edea5e8fdaaa618bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 11/37] fix: keep running when a port cannot be listened on

---
 libamqpprox/amqpprox_server.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 5b297df..5746e8f 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -140,10 +140,18 @@ void Server::startListening(int port, bool secure)
 
             boost::asio::ip::tcp::acceptor acceptor(d_ioContext);
             tcp::endpoint                  local_endpoint(tcp::v4(), port);
-            acceptor.open(local_endpoint.protocol());
-            acceptor.set_option(boost::asio::socket_base::reuse_address(true));
-            acceptor.bind(local_endpoint);
-            acceptor.listen(boost::asio::socket_base::max_connections);
+            try {
+                acceptor.open(local_endpoint.protocol());
+                acceptor.set_option(
+                    boost::asio::socket_base::reuse_address(true));
+                acceptor.bind(local_endpoint);
+                acceptor.listen(boost::asio::socket_base::max_connections);
+            }
+            catch (const boost::system::system_error &e) {
+                LOG_ERROR << "Failed to listen on port: " << port
+                          << ", reason: " << e.what();
+                return;
+            }
             d_listeningSockets.emplace(port, std::move(acceptor));
         }
 
-- 
2.43.0


From 44f99466aea7847fa25f722ca8955a38c0a65f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 12/37] fix: do not accept for a stopped listener on a
 restarted port

---
 libamqpprox/amqpprox_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 5746e8f..50664f0 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -242,6 +242,11 @@ void Server::doAccept(int port, bool secure)
                 d_eventSource_p->connectionReceived().emit(
                     session->state().id());
             }
+            else if (ec == boost::asio::error::operation_aborted) {
+                // This listener was stopped. The port might have been started
+                // again since, which does its own accepting.
+                return;
+            }
             else {
                 LOG_ERROR << "Accept failed, reason: " << ec.message();
                 // When the accept fails, we still fall through to try the
-- 
2.43.0


From d0a99b030cc669d01a141669421733c7652e5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:28 +0000
Subject: [PATCH 13/37] fix: refuse clients when the auth service answers with
 an error status

---
 libamqpprox/amqpprox_httpauthintercept.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libamqpprox/amqpprox_httpauthintercept.cpp b/libamqpprox/amqpprox_httpauthintercept.cpp
index eb192fa..e9b5f6a 100644
--- a/libamqpprox/amqpprox_httpauthintercept.cpp
+++ b/libamqpprox/amqpprox_httpauthintercept.cpp
@@ -233,6 +233,21 @@ void HttpAuthIntercept::onRead(
         return;
     }
 
+    if (beast::http::to_status_class(response->result()) !=
+        beast::http::status_class::successful) {
+        // The body of an error isn't an answer. In particular an empty one
+        // would be read as ALLOW.
+        const std::string errorMsg =
+            "Received http status " + std::to_string(response->result_int()) +
+            " from auth service.";
+        LOG_ERROR << errorMsg;
+        authproto::AuthResponse errorResponseData;
+        errorResponseData.set_result(authproto::AuthResponse::DENY);
+        errorResponseData.set_reason(errorMsg);
+        responseCb(errorResponseData);
+        return;
+    }
+
     authproto::AuthResponse authResponseData;
     if (!authResponseData.ParseFromString(response->body())) {
         const std::string errorMsg = "Unable to deserialize auth response "
-- 
2.43.0


From 4bb0a96bfd1a3e2e7f617f984e8454917b1d01f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:54 +0000
Subject: [PATCH 14/37] fix: keep reading clients held back by a paused vhost

---
 libamqpprox/amqpprox_session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index eadec15..19540e3 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -821,8 +821,11 @@ void Session::readData(FlowType direction)
 
             if (!ec) {
                 watermark += readAmount;
+                // A client held back until its vhost is unpaused keeps being
+                // read, it may be sending heartbeats in the meantime.
                 if (direction == FlowType::EGRESS ||
-                    !d_sessionState.getPaused()) {
+                    !d_sessionState.getPaused() ||
+                    d_sessionState.getReadyToConnectOnUnpause()) {
                     handleData(direction);
                 }
             }
-- 
2.43.0


From 3f891c97b97af4bc1b1a5672a11ca4816aeb9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:31 +0000
Subject: [PATCH 15/37] fix: end the client side of sessions whose backend is
 disconnected

---
 libamqpprox/amqpprox_session.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 19540e3..abb88e3 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -923,6 +923,8 @@ void Session::handleSessionError(const char               *action,
                                  FlowType                  direction,
                                  boost::system::error_code ec)
 {
+    bool closeSockets = ec != boost::asio::error::operation_aborted;
+
     if (d_connector.state() == Connector::State::CLOSED) {
         d_sessionState.setDisconnected(
             SessionState::DisconnectType::DISCONNECTED_CLEANLY);
@@ -956,9 +958,13 @@ void Session::handleSessionError(const char               *action,
             d_sessionState.setDisconnected(
                 SessionState::DisconnectType::DISCONNECTED_SERVER);
         }
+
+        // The session ends here, even if it is only one of its sockets that
+        // was closed.
+        closeSockets = true;
     }
 
-    if (ec != boost::asio::error::operation_aborted) {
+    if (closeSockets) {
         // TODO notify EventSource
 
         if (ec == boost::asio::ssl::error::stream_truncated) {
-- 
2.43.0


From 4fbc085fe0504fccea2e7640838c49b869bd7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:43 +0000
Subject: [PATCH 16/37] fix: do not disturb transfers under way when
 disconnecting gracefully

---
 libamqpprox/amqpprox_session.cpp | 53 +++++++++++++++++++++++++++++---
 libamqpprox/amqpprox_session.h   |  9 ++++++
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index abb88e3..5336b50 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -162,6 +162,8 @@ Session::Session(
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
+, d_writingToClient(false)
+, d_gracefulDisconnectPending(false)
 {
     boost::system::error_code ec;
     d_serverSocket->setDefaultOptions(ec);
@@ -675,11 +677,40 @@ void Session::disconnect(bool forcible)
         });
     }
     else {
-        d_connector.synthesizeClose(true);
-        sendSyntheticData();
+        auto self(shared_from_this());
+        d_ioContext.dispatch([this, self] { sendGracefulClose(); });
     }
 }
 
+void Session::sendGracefulClose()
+{
+    if (d_writingToClient) {
+        d_gracefulDisconnectPending = true;
+        return;
+    }
+
+    d_gracefulDisconnectPending = false;
+    d_writingToClient           = true;
+
+    d_connector.synthesizeClose(true);
+    const Buffer data = d_connector.outBuffer();
+    d_connector.resetOutBuffer();
+
+    // The client is being read already, or will be once the data last read
+    // from it has been written: this must neither start reading it again nor
+    // release the buffer of that data.
+    auto self(shared_from_this());
+    boost::asio::async_write(
+        *d_serverSocket,
+        boost::asio::buffer(data.ptr(), data.available()),
+        [this, self](error_code ec, std::size_t) {
+            d_writingToClient = false;
+            if (ec) {
+                LOG_INFO << "Sending Close to client failed rc: " << ec;
+            }
+        });
+}
+
 void Session::backendDisconnect()
 {
     auto self(shared_from_this());
@@ -712,8 +743,14 @@ void Session::handleWriteData(FlowType                    direction,
                               MaybeSecureSocketAdaptor<> &writeSocket,
                               Buffer                      data)
 {
-    auto self(shared_from_this());
-    auto writeHandler = [this, self, direction](error_code ec, std::size_t) {
+    auto       self(shared_from_this());
+    const bool toClient = &writeSocket == d_serverSocket.get();
+    if (toClient) {
+        d_writingToClient = true;
+    }
+
+    auto writeHandler = [this, self, direction, toClient](error_code ec,
+                                                          std::size_t) {
         BOOST_LOG_SCOPED_THREAD_ATTR(
             "Vhost",
             boost::log::attributes::constant<std::string>(
@@ -728,6 +765,10 @@ void Session::handleWriteData(FlowType                    direction,
             bufferWriteDataHandle(direction).release();
         }
 
+        if (toClient) {
+            d_writingToClient = false;
+        }
+
         if (ec) {
             handleSessionError("write", direction, ec);
             return;
@@ -747,6 +788,10 @@ void Session::handleWriteData(FlowType                    direction,
         currentlyReading(direction) = false;
 
         readData(direction);
+
+        if (toClient && d_gracefulDisconnectPending) {
+            sendGracefulClose();
+        }
     };
 
     LOG_TRACE << "Write of " << data.available() << " bytes"
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 545a9b0..3bc64dd 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -88,6 +88,9 @@ class Session : public std::enable_shared_from_this<Session> {
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
+    bool                  d_writingToClient;
+    bool                  d_gracefulDisconnectPending;
+
   public:
     // CREATORS
     Session(boost::asio::io_context                           &ioContext,
@@ -221,6 +224,12 @@ class Session : public std::enable_shared_from_this<Session> {
      */
     void sendSyntheticData();
 
+    /**
+     * \brief Send a Close to the client, once whatever is being written to it
+     * has been written
+     */
+    void sendGracefulClose();
+
     /**
      * \brief Handle the incoming data that's been received
      * \param direction specifies direction of the data flow (ingress/egress)
-- 
2.43.0


From 4a46e9a9f8a808944f2a9da53939d72c5f52b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:22 +0000
Subject: [PATCH 17/37] fix: connect out for unpaused sessions on the server
 thread

---
 libamqpprox/amqpprox_session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 5336b50..be0e4c3 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -615,7 +615,10 @@ void Session::unpause()
 
             d_sessionState.setReadyToConnectOnUnpause(false);
             d_sessionState.setPaused(false);
-            establishConnection();
+
+            // Called from the control thread
+            auto self(shared_from_this());
+            d_ioContext.dispatch([this, self] { establishConnection(); });
         }
         else {
             this->disconnect(true);
-- 
2.43.0


From 71060b29d4a569ecc2102f042a6cd0fc93778b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:50 +0000
Subject: [PATCH 18/37] fix: do not connect to backends for clients that have
 left

---
 libamqpprox/amqpprox_session.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index be0e4c3..69b655f 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -312,6 +312,12 @@ void Session::attemptConnection(
 void Session::attemptResolvedConnection(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
+    if (finished()) {
+        LOG_WARN << "Not connecting to a backend because client already "
+                 << "disconnected";
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
-- 
2.43.0


From a05f2e9bb533e4d91c72e639c047c5726c559608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:30 +0000
Subject: [PATCH 19/37] fix: do not subtract per-source statistics that were
 not collected

---
 libamqpprox/amqpprox_statcollector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_statcollector.cpp b/libamqpprox/amqpprox_statcollector.cpp
index bf5fb01..8f946ec 100644
--- a/libamqpprox/amqpprox_statcollector.cpp
+++ b/libamqpprox/amqpprox_statcollector.cpp
@@ -181,7 +181,6 @@ void StatCollector::deletedSession(const SessionState &session)
 
     auto &vhostStats   = d_current.vhosts()[vhost];
     auto &backendStats = d_current.backends()[backend];
-    auto &sourceStats  = d_current.sources()[source];
 
     uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
         ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
@@ -222,7 +221,10 @@ void StatCollector::deletedSession(const SessionState &session)
 
     remStats(vhostStats);
     remStats(backendStats);
-    remStats(sourceStats);
+    if (d_collectPerSourceStats) {
+        // Otherwise nothing was collected that would have to be removed
+        remStats(d_current.sources()[source]);
+    }
     remStats(d_current.overall());
 }
 
-- 
2.43.0


From dd1c61de549c2c8726da8746bae13c737b3dbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 20/37] fix: escape names in JSON statistics

Virtual host names come from clients, so they can hold quotes,
backslashes and control characters.
---
 libamqpprox/amqpprox_jsonstatformatter.cpp | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_jsonstatformatter.cpp b/libamqpprox/amqpprox_jsonstatformatter.cpp
index 4b29439..8dd65c0 100644
--- a/libamqpprox/amqpprox_jsonstatformatter.cpp
+++ b/libamqpprox/amqpprox_jsonstatformatter.cpp
@@ -21,6 +21,29 @@
 namespace Bloomberg {
 namespace amqpprox {
 
+namespace {
+
+void formatName(std::ostream &os, const std::string &name)
+{
+    static const char hex[] = "0123456789abcdef";
+
+    os << '"';
+    for (unsigned char c : name) {
+        if (c == '"' || c == '\\') {
+            os << '\\' << c;
+        }
+        else if (c < 0x20) {
+            os << "\\u00" << hex[c >> 4] << hex[c & 0xf];
+        }
+        else {
+            os << c;
+        }
+    }
+    os << '"';
+}
+
+}
+
 void JsonStatFormatter::format(std::ostream &os, const ConnectionStats &stats)
 {
     os << "{"
@@ -60,7 +83,8 @@ void JsonStatFormatter::format(std::ostream                 &os,
             firstIteration = false;
         }
 
-        os << "\"" << stat.first << "\": ";
+        formatName(os, stat.first);
+        os << ": ";
         format(os, stat.second);
     }
     os << "}";
-- 
2.43.0


From f80dc6b835711b7e6a5b4805eef656c31570b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:39 +0000
Subject: [PATCH 21/37] fix: keep names from breaking StatsD metrics apart

Virtual host names and IPv6 addresses can hold the characters which
separate the parts of a metric.
---
 libamqpprox/amqpprox_statsdpublisher.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_statsdpublisher.cpp b/libamqpprox/amqpprox_statsdpublisher.cpp
index 28b598a..aa9b9c7 100644
--- a/libamqpprox/amqpprox_statsdpublisher.cpp
+++ b/libamqpprox/amqpprox_statsdpublisher.cpp
@@ -25,6 +25,19 @@ namespace {
 
 enum class MetricType { GAUGE, COUNTER, DISTRIBUTION };
 
+/// Replace the characters which would end a tag value or the whole metric
+std::string sanitiseTagValue(std::string value)
+{
+    for (char &c : value) {
+        unsigned char byte = static_cast<unsigned char>(c);
+        if (byte <= 0x20 || byte == 0x7f ||
+            std::string(",=:|@#").find(c) != std::string::npos) {
+            c = '_';
+        }
+    }
+    return value;
+}
+
 template <typename T>
 std::string
 formatMetric(MetricType                                              type,
@@ -38,7 +51,7 @@ formatMetric(MetricType                                              type,
         metric += ",";
         metric += tag.first;
         metric += "=";
-        metric += tag.second;
+        metric += sanitiseTagValue(tag.second);
     }
     metric += ":";
     metric += std::to_string(value);
-- 
2.43.0


From 547ecfb12ebfb20bfb3973dd453915e2b43cbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:26 +0000
Subject: [PATCH 22/37] fix: report that statistics cannot be sent somewhere

An unresolvable host given to STAT SEND ended the control thread.
---
 libamqpprox/amqpprox_statcontrolcommand.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_statcontrolcommand.cpp b/libamqpprox/amqpprox_statcontrolcommand.cpp
index a6b72b2..a8c69e4 100644
--- a/libamqpprox/amqpprox_statcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_statcontrolcommand.cpp
@@ -323,9 +323,18 @@ void StatControlCommand::handleCommand(const std::string   &command,
             return;
         }
 
-        std::shared_ptr<StatsDPublisher> publisher =
-            std::make_shared<StatsDPublisher>(
+        std::shared_ptr<StatsDPublisher> publisher;
+        try {
+            publisher = std::make_shared<StatsDPublisher>(
                 &controlHandle->ioContext(), outputHost, outputPort);
+        }
+        catch (const boost::system::system_error &error) {
+            outputFunctor("Failed to send stats on " + outputHost + ":" +
+                              std::to_string(outputPort) + ": " +
+                              error.what() + "\n",
+                          true);
+            return;
+        }
         StatFunctor sf = [publisher](const StatSnapshot &statSnapshot) {
             publisher->publish(statSnapshot);
             return true;
-- 
2.43.0


From 18b682bb2ac67f0210bc28448f0693e30eed10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:32 +0000
Subject: [PATCH 23/37] fix: do not mix up outputs written to a control
 connection

Outputs longer than 64 KiB are written in several parts, between which
parts of the next output were written when the reader was slow.
---
 libamqpprox/amqpprox_control.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index 1fc52db..5c71225 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -21,6 +21,7 @@
 
 #include <boost/algorithm/string.hpp>
 
+#include <deque>
 #include <iostream>
 
 using boost::asio::local::stream_protocol;
@@ -54,6 +55,9 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     boost::asio::streambuf  d_streamBuf;
     bool                    d_finished;
 
+    // Outputs still to be written, and whether they are the last ones
+    std::deque<std::pair<std::string, bool>> d_outputs;
+
   public:
     ControlSession(stream_protocol::socket socket,
                    Server                 *server,
@@ -65,6 +69,7 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     , d_eventSource_p(eventSource)
     , d_streamBuf()
     , d_finished(false)
+    , d_outputs()
     {
     }
 
@@ -108,18 +113,31 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
             return false;
         }
 
+        d_outputs.emplace_back(output, finishOutput);
+        if (d_outputs.size() == 1) {
+            writeNextOutput();
+        }
+
+        return true;
+    }
+
+    void writeNextOutput()
+    {
+        // Only one output is written at a time, because the parts in which
+        // larger ones are written would get mixed up otherwise.
         auto self(shared_from_this());
-        auto spOutput = std::make_shared<std::string>(output);
         boost::asio::async_write(
             d_socket,
-            boost::asio::buffer(spOutput->data(), spOutput->length()),
-            [this, finishOutput, self, spOutput](error_code  ec,
-                                                 std::size_t length) {
+            boost::asio::buffer(d_outputs.front().first),
+            [this, self](error_code ec, std::size_t length) {
                 if (ec) {
                     d_finished = true;
                     return;
                 }
 
+                bool finishOutput = d_outputs.front().second;
+                d_outputs.pop_front();
+
                 if (finishOutput) {
                     d_finished = true;
                     error_code shutdownErr;
@@ -127,9 +145,10 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
                                       shutdownErr);
                     d_socket.close();
                 }
+                else if (!d_outputs.empty()) {
+                    writeNextOutput();
+                }
             });
-
-        return true;
     }
 
     void start() { readInput(); }
-- 
2.43.0


From b68222b96fad192b8817f392285a76ef70b3426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 24/37] fix: end the subscription a handle is assigned over

---
 libamqpprox/amqpprox_eventsourcesignal.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_eventsourcesignal.h b/libamqpprox/amqpprox_eventsourcesignal.h
index d557b26..31a062d 100644
--- a/libamqpprox/amqpprox_eventsourcesignal.h
+++ b/libamqpprox/amqpprox_eventsourcesignal.h
@@ -20,6 +20,7 @@
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <utility>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -83,8 +84,20 @@ class EventSubscriptionHandle {
     EventSubscriptionHandle &
     operator=(const EventSubscriptionHandle &) = default;
 
-    EventSubscriptionHandle(EventSubscriptionHandle &&)            = default;
-    EventSubscriptionHandle &operator=(EventSubscriptionHandle &&) = default;
+    EventSubscriptionHandle(EventSubscriptionHandle &&) = default;
+
+    /**
+     * \brief Take over the subscription of `rhs`, ending the one held so far
+     */
+    EventSubscriptionHandle &operator=(EventSubscriptionHandle &&rhs)
+    {
+        if (this != &rhs) {
+            release();
+            d_subscriptionLocation = std::move(rhs.d_subscriptionLocation);
+            d_subscriptionId       = rhs.d_subscriptionId;
+        }
+        return *this;
+    }
 
     /**
      * \brief Explicitly release the subscription
-- 
2.43.0


From 63187ef30286ef5aa5e013f91458dcf18a4cc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:03 +0000
Subject: [PATCH 25/37] fix: name both addresses correctly in PROXY headers

---
 libamqpprox/amqpprox_session.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 69b655f..1c1ff35 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -457,15 +457,30 @@ std::string Session::getProxyProtocolHeader(const Backend *currentBackend)
 {
     // For now only Proxy Protocol V1 is supported
     LOG_INFO << "Proxy Protocol V1 is enabled for: " << d_sessionState;
-    auto              remoteClient = d_sessionState.getIngress().second;
-    std::stringstream remoteClientAddress;
-    remoteClientAddress << remoteClient.address();
+    auto remoteClient  = d_sessionState.getIngress().second;
+    auto clientAddress = remoteClient.address();
+    auto serverAddress = d_sessionState.getEgress().second.address();
+
+    // Both addresses in a header are of the same family
+    auto protocol = ProxyProtocolHeaderV1::InetProtocol::TCP4;
+    if (clientAddress.is_v6() || serverAddress.is_v6()) {
+        using boost::asio::ip::make_address_v6;
+        using boost::asio::ip::v4_mapped;
+
+        protocol = ProxyProtocolHeaderV1::InetProtocol::TCP6;
+        if (clientAddress.is_v4()) {
+            clientAddress = make_address_v6(v4_mapped, clientAddress.to_v4());
+        }
+        if (serverAddress.is_v4()) {
+            serverAddress = make_address_v6(v4_mapped, serverAddress.to_v4());
+        }
+    }
 
     // Add Proxy Protocol-V1 Header
     ProxyProtocolHeaderV1 header =
-        ProxyProtocolHeaderV1(ProxyProtocolHeaderV1::InetProtocol::TCP4,
-                              remoteClientAddress.str(),
-                              currentBackend->ip(),
+        ProxyProtocolHeaderV1(protocol,
+                              clientAddress.to_string(),
+                              serverAddress.to_string(),
                               remoteClient.port(),
                               currentBackend->port());
 
-- 
2.43.0


From 95613e9f9bc0b7b044d3f1c8a0e15a37116b838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:43 +0000
Subject: [PATCH 26/37] fix: keep farms alive while a connection is being
 selected from them

---
 libamqpprox/amqpprox_connectionselector.cpp |  4 ++--
 libamqpprox/amqpprox_farmstore.cpp          |  8 +++++++-
 libamqpprox/amqpprox_farmstore.h            | 10 +++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_connectionselector.cpp b/libamqpprox/amqpprox_connectionselector.cpp
index e6b1cb0..a1f9a4e 100644
--- a/libamqpprox/amqpprox_connectionselector.cpp
+++ b/libamqpprox/amqpprox_connectionselector.cpp
@@ -83,10 +83,10 @@ SessionState::ConnectionStatus ConnectionSelector::acquireConnection(
     if (isFarm) {
         // Return the BackendSet and BackendSelector generated by the Farm
         try {
-            const auto &farm = d_farmStore_p->getFarmByName(resourceName);
+            auto farm = d_farmStore_p->shareFarmByName(resourceName);
 
             connectionManager.reset(new ConnectionManager(
-                farm.backendSet(), farm.backendSelector()));
+                farm->backendSet(), farm->backendSelector()));
         }
         catch (std::runtime_error &e) {
             LOG_WARN << "Unable to acquire backend from Farm: " << resourceName
diff --git a/libamqpprox/amqpprox_farmstore.cpp b/libamqpprox/amqpprox_farmstore.cpp
index f90f5b1..0f36253 100644
--- a/libamqpprox/amqpprox_farmstore.cpp
+++ b/libamqpprox/amqpprox_farmstore.cpp
@@ -54,6 +54,12 @@ void FarmStore::repartitionAll()
 
 // ACCESSORS
 Farm &FarmStore::getFarmByName(const std::string &name) const
+{
+    return *shareFarmByName(name);
+}
+
+std::shared_ptr<Farm>
+FarmStore::shareFarmByName(const std::string &name) const
 {
     std::lock_guard<std::mutex> lg(d_mutex);
 
@@ -62,7 +68,7 @@ Farm &FarmStore::getFarmByName(const std::string &name) const
         throw std::runtime_error("No such farm");
     }
 
-    return *(farm->second);
+    return farm->second;
 }
 
 void FarmStore::print(std::ostream &os) const
diff --git a/libamqpprox/amqpprox_farmstore.h b/libamqpprox/amqpprox_farmstore.h
index e1ec2d5..a5d20f9 100644
--- a/libamqpprox/amqpprox_farmstore.h
+++ b/libamqpprox/amqpprox_farmstore.h
@@ -33,7 +33,7 @@ namespace amqpprox {
 class FarmStore {
   private:
     // PRIVATE TYPES
-    using FarmMap = std::unordered_map<std::string, std::unique_ptr<Farm>>;
+    using FarmMap = std::unordered_map<std::string, std::shared_ptr<Farm>>;
 
     // DATA
     FarmMap            d_farms;
@@ -69,6 +69,14 @@ class FarmStore {
      */
     Farm &getFarmByName(const std::string &name) const;
 
+    /**
+     * \brief Return the farm associated with this name, which stays valid also
+     * when the farm is removed or replaced at the same time
+     * \param name of farm to retrieve
+     * \returns a shared pointer to the Farm named
+     */
+    std::shared_ptr<Farm> shareFarmByName(const std::string &name) const;
+
     /**
      * \brief Print all of the farms in the store
      */
-- 
2.43.0


From 9162e99afc6ad21f70c7492c19c2898b3b3a10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:26 +0000
Subject: [PATCH 27/37] fix: keep the times CONN prints safe to read from the
 control thread

---
 libamqpprox/amqpprox_session.cpp |  8 ++++----
 libamqpprox/amqpprox_session.h   | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 1c1ff35..21c0708 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -150,8 +150,8 @@ Session::Session(
 , d_eventSource_p(eventSource)
 , d_bufferPool_p(bufferPool)
 , d_dnsResolver_p(dnsResolver)
-, d_ingressWaitingSince()
-, d_egressWaitingSince()
+, d_ingressWaitingSince(TimePoint())
+, d_egressWaitingSince(TimePoint())
 , d_egressRetryCounter(0)
 , d_ingressCurrentlyReading(false)
 , d_ingressStartedAt()
@@ -606,9 +606,9 @@ void Session::print(std::ostream &os)
 {
     TimePoint now = std::chrono::high_resolution_clock::now();
     std::chrono::duration<double> ingressTime =
-        now - timePoint(FlowType::INGRESS);
+        now - timePoint(FlowType::INGRESS).load();
     std::chrono::duration<double> egressTime =
-        now - timePoint(FlowType::EGRESS);
+        now - timePoint(FlowType::EGRESS).load();
     os << d_sessionState << " " << ingressTime.count() << ":"
        << egressTime.count() << std::endl;
 }
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 3bc64dd..051cc81 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -32,6 +32,7 @@
 #include <boost/asio.hpp>
 #include <boost/asio/steady_timer.hpp>
 
+#include <atomic>
 #include <chrono>
 #include <iosfwd>
 #include <memory>
@@ -76,8 +77,8 @@ class Session : public std::enable_shared_from_this<Session> {
     EventSource                 *d_eventSource_p;         // HELD NOT OWNED
     BufferPool                  *d_bufferPool_p;          // HELD NOT OWNED
     DNSResolver                 *d_dnsResolver_p;
-    TimePoint                    d_ingressWaitingSince;
-    TimePoint                    d_egressWaitingSince;
+    std::atomic<TimePoint>       d_ingressWaitingSince;
+    std::atomic<TimePoint>       d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
     bool                         d_ingressCurrentlyReading;
     TimePoint                    d_ingressStartedAt;
@@ -309,7 +310,7 @@ class Session : public std::enable_shared_from_this<Session> {
      * \param direction specifies direction of the data flow (ingress/egress)
      * \return a mutable reference to the time we last saw traffic
      */
-    inline TimePoint &timePoint(FlowType direction);
+    inline std::atomic<TimePoint> &timePoint(FlowType direction);
 
     /**
      * \param direction specifies direction of the data flow (ingress/egress)
@@ -408,7 +409,8 @@ inline std::size_t &Session::waterMark(FlowType direction)
                                           : d_clientWaterMark;
 }
 
-inline Session::TimePoint &Session::timePoint(FlowType direction)
+inline std::atomic<Session::TimePoint> &
+Session::timePoint(FlowType direction)
 {
     return direction == FlowType::INGRESS ? d_ingressWaitingSince
                                           : d_egressWaitingSince;
-- 
2.43.0


From 05b1f6acdb0d717f5d8d902595163da1d727f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 28/37] fix: take the auth and hostname settings of a new
 session under the lock

---
 libamqpprox/amqpprox_server.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 50664f0..1c9e322 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -219,6 +219,15 @@ void Server::doAccept(int port, bool secure)
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
 
+                std::shared_ptr<HostnameMapper>         hostnameMapper;
+                std::shared_ptr<AuthInterceptInterface> authIntercept;
+                {
+                    // These are changed from the control thread
+                    std::lock_guard<std::mutex> lg(d_mutex);
+                    hostnameMapper = d_hostnameMapper;
+                    authIntercept  = d_authIntercept;
+                }
+
                 auto session =
                     std::make_shared<Session>(d_ioContext,
                                               incomingSocket,
@@ -227,9 +236,9 @@ void Server::doAccept(int port, bool secure)
                                               d_eventSource_p,
                                               d_bufferPool_p,
                                               &d_dnsResolver,
-                                              d_hostnameMapper,
+                                              hostnameMapper,
                                               d_localHostname,
-                                              d_authIntercept,
+                                              authIntercept,
                                               secure,
                                               d_limitManager);
 
-- 
2.43.0


From a67afd8bded43ab71afd5767a35e75ad074e3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:37 +0000
Subject: [PATCH 29/37] fix: return the virtual host of a session by value from
 under its lock

---
 libamqpprox/amqpprox_sessionstate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_sessionstate.h b/libamqpprox/amqpprox_sessionstate.h
index 683f589..473234e 100644
--- a/libamqpprox/amqpprox_sessionstate.h
+++ b/libamqpprox/amqpprox_sessionstate.h
@@ -207,7 +207,7 @@ class SessionState {
     /**
      * \return the virtual host
      */
-    inline const std::string &getVirtualHost() const;
+    inline std::string getVirtualHost() const;
 
     /**
      * \return the state(paused/unpaused) of the virtual host
@@ -274,7 +274,7 @@ inline SessionState::EndpointPair SessionState::getIngress() const
     return std::make_pair(d_ingressLocalEndpoint, d_ingressRemoteEndpoint);
 }
 
-inline const std::string &SessionState::getVirtualHost() const
+inline std::string SessionState::getVirtualHost() const
 {
     std::lock_guard<std::mutex> lg(d_lock);
     return d_virtualHost;
-- 
2.43.0


From cdc4b652c9ff20ae5d59abff870d798a2a937713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:14 +0000
Subject: [PATCH 30/37] fix: let logins go on that were under way when their
 vhost was paused

---
 libamqpprox/amqpprox_session.cpp              | 40 ++++++++++++++-----
 libamqpprox/amqpprox_session.h                |  1 +
 .../amqpprox_vhostestablishedpauser.cpp       |  6 +++
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 21c0708..b441afb 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -153,6 +153,7 @@ Session::Session(
 , d_ingressWaitingSince(TimePoint())
 , d_egressWaitingSince(TimePoint())
 , d_egressRetryCounter(0)
+, d_pauseCount(0)
 , d_ingressCurrentlyReading(false)
 , d_ingressStartedAt()
 , d_egressCurrentlyReading(false)
@@ -227,6 +228,7 @@ void Session::attemptConnection(
 {
     if (d_sessionState.getPaused()) {
         LOG_DEBUG << "Not establishing a connection because paused";
+        d_sessionState.setReadyToConnectOnUnpause(true);
         return;
     }
 
@@ -318,6 +320,12 @@ void Session::attemptResolvedConnection(
         return;
     }
 
+    if (d_sessionState.getPaused()) {
+        LOG_DEBUG << "Not connecting to a backend because paused";
+        d_sessionState.setReadyToConnectOnUnpause(true);
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
@@ -500,6 +508,8 @@ void Session::establishConnection()
         return;
     }
 
+    d_egressRetryCounter = 0;
+
     std::shared_ptr<ConnectionManager> connectionManager;
     SessionState::ConnectionStatus     rc =
         d_connectionSelector_p->acquireConnection(&connectionManager,
@@ -615,14 +625,21 @@ void Session::print(std::ostream &os)
 
 void Session::pause()
 {
-    if (!d_sessionState.getPaused()) {
-        d_sessionState.setPaused(true);
-    }
+    ++d_pauseCount;
+    d_sessionState.setPaused(true);
 }
 
 void Session::unpause()
 {
-    if (d_sessionState.getPaused()) {
+    // Called from the control thread as well, while connecting out takes place
+    // on the server thread, which might get to it only after another pause.
+    auto pauseCount = d_pauseCount.load();
+    auto self(shared_from_this());
+    d_ioContext.dispatch([this, self, pauseCount] {
+        if (!d_sessionState.getPaused() || pauseCount != d_pauseCount) {
+            return;
+        }
+
         if (d_sessionState.getReadyToConnectOnUnpause()) {
             BOOST_LOG_SCOPED_THREAD_ATTR(
                 "Vhost",
@@ -636,15 +653,16 @@ void Session::unpause()
 
             d_sessionState.setReadyToConnectOnUnpause(false);
             d_sessionState.setPaused(false);
-
-            // Called from the control thread
-            auto self(shared_from_this());
-            d_ioContext.dispatch([this, self] { establishConnection(); });
+            establishConnection();
         }
-        else {
+        else if (d_connector.state() == Connector::State::OPEN) {
             this->disconnect(true);
         }
-    }
+        else {
+            // Still being connected, which goes on
+            d_sessionState.setPaused(false);
+        }
+    });
 }
 
 void Session::disconnectUnauthClient(const FieldTable &clientProperties,
@@ -894,7 +912,7 @@ void Session::readData(FlowType direction)
                 // read, it may be sending heartbeats in the meantime.
                 if (direction == FlowType::EGRESS ||
                     !d_sessionState.getPaused() ||
-                    d_sessionState.getReadyToConnectOnUnpause()) {
+                    d_connector.state() != Connector::State::OPEN) {
                     handleData(direction);
                 }
             }
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 051cc81..44176b7 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -80,6 +80,7 @@ class Session : public std::enable_shared_from_this<Session> {
     std::atomic<TimePoint>       d_ingressWaitingSince;
     std::atomic<TimePoint>       d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
+    std::atomic<uint64_t>        d_pauseCount;
     bool                         d_ingressCurrentlyReading;
     TimePoint                    d_ingressStartedAt;
     bool                         d_egressCurrentlyReading;
diff --git a/libamqpprox/amqpprox_vhostestablishedpauser.cpp b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
index 7daf9d2..711104c 100644
--- a/libamqpprox/amqpprox_vhostestablishedpauser.cpp
+++ b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
@@ -33,6 +33,12 @@ EventSubscriptionHandle vhostEstablishedPauser(EventSource *eventSource,
             if (vhostState->isPaused(vhost)) {
                 auto session = server->getSession(id);
                 session->pause();
+
+                if (!vhostState->isPaused(vhost)) {
+                    // Unpaused meanwhile by the control thread, which might
+                    // not have found this session paused.
+                    session->unpause();
+                }
             }
         });
 }
-- 
2.43.0


From 9ca8fc2ade95ad40b4a299806a274e1ccf2318c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:12 +0000
Subject: [PATCH 31/37] fix: apply TLS settings made after a secure port was
 opened to its next client

The TLS stream for the next incoming connection was created before that
connection was there, so the first client after a TLS command was still
handled with the settings before it.
---
 libamqpprox/amqpprox_server.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 1c9e322..ac78994 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -207,14 +207,16 @@ void Server::doAccept(int port, bool secure)
         return;
     }
 
-    std::shared_ptr<MaybeSecureSocketAdaptor<>> incomingSocket =
-        std::make_shared<MaybeSecureSocketAdaptor<>>(
-            d_ioContext, d_ingressTlsContext, secure);
-
     it->second.async_accept(
-        incomingSocket->socket(),
-        [this, port, secure, incomingSocket](error_code ec) {
+        d_ioContext,
+        [this, port, secure](error_code ec, tcp::socket accepted) {
             if (!ec) {
+                // Created only now, for the TLS settings at this time to apply
+                std::shared_ptr<MaybeSecureSocketAdaptor<>> incomingSocket =
+                    std::make_shared<MaybeSecureSocketAdaptor<>>(
+                        d_ioContext, d_ingressTlsContext, secure);
+                incomingSocket->socket() = std::move(accepted);
+
                 std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
-- 
2.43.0


From 777caacea8d761804f9c5ba0272cc4ad94beab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:12 +0000
Subject: [PATCH 32/37] fix: keep the present cipher list when TLS CIPHERS SET
 fails

OpenSSL replaces the list of the context even when it reports that the
new one is unusable.
---
 libamqpprox/amqpprox_tlscontrolcommand.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_tlscontrolcommand.cpp b/libamqpprox/amqpprox_tlscontrolcommand.cpp
index 1f20f4f..90724fe 100644
--- a/libamqpprox/amqpprox_tlscontrolcommand.cpp
+++ b/libamqpprox/amqpprox_tlscontrolcommand.cpp
@@ -18,6 +18,7 @@
 #include <amqpprox_logging.h>
 #include <amqpprox_server.h>
 
+#include <memory>
 #include <sstream>
 #include <string>
 
@@ -134,10 +135,15 @@ void TlsControlCommand::handleCommand(const std::string & /* command */,
             std::string cipherList;
             std::getline(iss, cipherList);
 
-            int rc = SSL_CTX_set_cipher_list(context.native_handle(),
-                                             cipherList.c_str());
+            // An unusable list would replace the present one all the same, so
+            // it is tried out beforehand
+            std::unique_ptr<SSL, decltype(&SSL_free)> trial(
+                SSL_new(context.native_handle()), &SSL_free);
 
-            if (!rc) {
+            if (!trial ||
+                !SSL_set_cipher_list(trial.get(), cipherList.c_str()) ||
+                !SSL_CTX_set_cipher_list(context.native_handle(),
+                                         cipherList.c_str())) {
                 output << "Failed to set cipher suite. ";
             }
 
-- 
2.43.0


From a5ac7cacaee15c4e182a02b49a0835a9b1bd36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:12 +0000
Subject: [PATCH 33/37] fix: run TLS commands on the server thread

The TLS contexts were changed on the control thread while the server
thread set up connections with them, which crashes.
---
 libamqpprox/amqpprox_tlscontrolcommand.cpp | 27 ++++++++++++++++++++--
 libamqpprox/amqpprox_tlscontrolcommand.h   | 18 +++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_tlscontrolcommand.cpp b/libamqpprox/amqpprox_tlscontrolcommand.cpp
index 90724fe..87a6d59 100644
--- a/libamqpprox/amqpprox_tlscontrolcommand.cpp
+++ b/libamqpprox/amqpprox_tlscontrolcommand.cpp
@@ -15,6 +15,7 @@
 */
 #include <amqpprox_tlscontrolcommand.h>
 
+#include <amqpprox_control.h>
 #include <amqpprox_logging.h>
 #include <amqpprox_server.h>
 
@@ -49,6 +50,8 @@ void logCipherSuites(boost::asio::ssl::context &context, std::ostream &os)
 }
 
 TlsControlCommand::TlsControlCommand()
+: d_pendingOutputs()
+, d_commandCount(0)
 {
 }
 
@@ -69,10 +72,30 @@ void TlsControlCommand::handleCommand(const std::string & /* command */,
                                       const std::string   &restOfCommand,
                                       const OutputFunctor &outputFunctor,
                                       Server              *serverHandle,
-                                      Control * /* controlHandle */)
+                                      Control             *controlHandle)
 {
-    ControlCommandOutput<OutputFunctor> output(outputFunctor);
+    // The TLS contexts are used by the server thread for new connections, and
+    // cannot be used and changed at the same time.
+    uint64_t id = ++d_commandCount;
+    d_pendingOutputs.emplace(id, outputFunctor);
+
+    serverHandle->ioContext().dispatch(
+        [this, id, restOfCommand, serverHandle, controlHandle] {
+            std::ostringstream output;
+            configure(restOfCommand, output, serverHandle);
+
+            controlHandle->ioContext().post([this, id, text = output.str()] {
+                auto it = d_pendingOutputs.find(id);
+                it->second(text, true);
+                d_pendingOutputs.erase(it);
+            });
+        });
+}
 
+void TlsControlCommand::configure(const std::string &restOfCommand,
+                                  std::ostream      &output,
+                                  Server            *serverHandle)
+{
     std::istringstream iss(restOfCommand);
     std::string        direction, command, file;
     iss >> direction;
diff --git a/libamqpprox/amqpprox_tlscontrolcommand.h b/libamqpprox/amqpprox_tlscontrolcommand.h
index 952a567..43d748d 100644
--- a/libamqpprox/amqpprox_tlscontrolcommand.h
+++ b/libamqpprox/amqpprox_tlscontrolcommand.h
@@ -18,6 +18,11 @@
 
 #include <amqpprox_controlcommand.h>
 
+#include <cstdint>
+#include <iosfwd>
+#include <map>
+#include <string>
+
 namespace Bloomberg {
 namespace amqpprox {
 
@@ -26,6 +31,19 @@ namespace amqpprox {
  * and egress (client) connections, implements the ControlCommand interface
  */
 class TlsControlCommand : public ControlCommand {
+  private:
+    // Where the output of the commands under way goes to. Only used on the
+    // control thread.
+    std::map<uint64_t, OutputFunctor> d_pendingOutputs;
+    uint64_t                          d_commandCount;
+
+    /**
+     * \brief Change or print the TLS settings, on the server thread
+     */
+    static void configure(const std::string &restOfCommand,
+                          std::ostream      &output,
+                          Server            *serverHandle);
+
   public:
     TlsControlCommand();
 
-- 
2.43.0


From 1f7f16f1efab0eb5590292339cb1ffdc76e8c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:10 +0000
Subject: [PATCH 34/37] fix: authenticate with the client's own credentials
 after a pause

Credentials and reason of an earlier ALLOW stayed in the client's StartOk:
when it was held back by a pause after that, the auth service was asked
about the replacement credentials, and the reason was sent twice.
---
 libamqpprox/amqpprox_connector.cpp | 6 ++++++
 libamqpprox/amqpprox_connector.h   | 7 +++++++
 libamqpprox/amqpprox_session.cpp   | 2 ++
 3 files changed, 15 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 3872850..d4f8cec 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -166,6 +166,7 @@ void Connector::receive(const Method &method, FlowType direction)
     // Acting as a server
     case State::START_SENT: {
         decodeMethod(&d_startOk, method, methodPayload, direction);
+        d_receivedStartOk = d_startOk;
 
         LOG_TRACE << "StartOk: " << d_startOk;
 
@@ -478,6 +479,11 @@ const FieldTable Connector::getClientProperties() const
     return d_startOk.properties();
 }
 
+void Connector::resetAuthentication()
+{
+    d_startOk = d_receivedStartOk;
+}
+
 const std::pair<const std::string, const std::string>
 Connector::getAuthMechanismCredentials() const
 {
diff --git a/libamqpprox/amqpprox_connector.h b/libamqpprox/amqpprox_connector.h
index 20d5431..cda4917 100644
--- a/libamqpprox/amqpprox_connector.h
+++ b/libamqpprox/amqpprox_connector.h
@@ -81,6 +81,7 @@ class Connector {
     methods::Start        d_synthesizedStart;
     methods::Start        d_receivedStart;
     methods::StartOk      d_startOk;
+    methods::StartOk      d_receivedStartOk;
     methods::Tune         d_synthesizedTune;
     methods::Tune         d_receivedTune;
     methods::TuneOk       d_tuneOk;
@@ -213,6 +214,12 @@ class Connector {
      */
     const FieldTable getClientProperties() const;
 
+    /**
+     * \brief Forget what authenticating the client has changed in its START-OK
+     * connection method so far, before it is authenticated again
+     */
+    void resetAuthentication();
+
     /**
      * \brief AMQP client sends auth mechansim and credential information using
      * START-OK connection method. The method extracts mechanism and credential
diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index b441afb..c183565 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -595,6 +595,8 @@ void Session::establishConnection()
             return;
         }
     };
+    // A client that was held back by a pause has been authenticated before
+    d_connector.resetAuthentication();
     const std::pair<const std::string, const std::string> sasl =
         d_connector.getAuthMechanismCredentials();
 
-- 
2.43.0


From a5750cea4c4cb5a763c7892e59aa80230b1cc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:41 +0000
Subject: [PATCH 35/37] fix: read a session's hostname mapper under its lock

MAPHOSTNAME replaces it from the control thread while the server thread
logs the session in or out.
---
 libamqpprox/amqpprox_sessionstate.cpp | 38 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/libamqpprox/amqpprox_sessionstate.cpp b/libamqpprox/amqpprox_sessionstate.cpp
index c57e38f..aeafd74 100644
--- a/libamqpprox/amqpprox_sessionstate.cpp
+++ b/libamqpprox/amqpprox_sessionstate.cpp
@@ -59,26 +59,34 @@ void SessionState::setEgress(boost::asio::io_context       &ioContext,
                              boost::asio::ip::tcp::endpoint local,
                              boost::asio::ip::tcp::endpoint remote)
 {
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    std::shared_ptr<HostnameMapper> hostnameMapper;
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        d_egressLocalEndpoint  = local;
+        d_egressRemoteEndpoint = remote;
+        hostnameMapper         = d_hostnameMapper;
     }
 
-    std::lock_guard<std::mutex> lg(d_lock);
-    d_egressLocalEndpoint  = local;
-    d_egressRemoteEndpoint = remote;
+    if (hostnameMapper) {
+        hostnameMapper->prime(ioContext, {local, remote});
+    }
 }
 
 void SessionState::setIngress(boost::asio::io_context       &ioContext,
                               boost::asio::ip::tcp::endpoint local,
                               boost::asio::ip::tcp::endpoint remote)
 {
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    std::shared_ptr<HostnameMapper> hostnameMapper;
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        d_ingressLocalEndpoint  = local;
+        d_ingressRemoteEndpoint = remote;
+        hostnameMapper          = d_hostnameMapper;
     }
 
-    std::lock_guard<std::mutex> lg(d_lock);
-    d_ingressLocalEndpoint  = local;
-    d_ingressRemoteEndpoint = remote;
+    if (hostnameMapper) {
+        hostnameMapper->prime(ioContext, {local, remote});
+    }
 }
 
 void SessionState::setVirtualHost(const std::string &vhost)
@@ -163,10 +171,16 @@ void SessionState::setLimitedConnection()
 std::string
 SessionState::hostname(const boost::asio::ip::tcp::endpoint &endpoint) const
 {
-    if (!d_hostnameMapper) {
+    std::shared_ptr<HostnameMapper> hostnameMapper;
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        hostnameMapper = d_hostnameMapper;
+    }
+
+    if (!hostnameMapper) {
         return boost::lexical_cast<std::string>(endpoint.address());
     }
-    return d_hostnameMapper->mapToHostname(endpoint);
+    return hostnameMapper->mapToHostname(endpoint);
 }
 
 void SessionState::getTotals(uint64_t *ingressPackets,
-- 
2.43.0


From c2497eb0ffb3140ee7a5ed82546609103e4376cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:17 +0000
Subject: [PATCH 36/37] fix: answer a client's Close during a graceful
 disconnect

---
 libamqpprox/amqpprox_connector.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index d4f8cec..b5e84f7 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -258,11 +258,12 @@ void Connector::receive(const Method &method, FlowType direction)
         }
         else if (method.methodType == methods::Close::methodType()) {
             if (direction == FlowType::INGRESS) {
-                LOG_INFO << "Received Close confirmation from client while "
-                            "waiting for CloseOk. Will now initiate Close "
-                            "with server.";
+                LOG_INFO << "Received Close from client while waiting for "
+                            "CloseOk. Will initiate Close with server once "
+                            "the client has confirmed or disconnected.";
+                // Only one message can be sent at a time: sending Close to
+                // the server here would replace the CloseOk
                 sendResponse(d_closeOk, true);
-                synthesizeClose(false);  // sending close to server
             }
             else {
                 // no need to send Close to server if received Close from
-- 
2.43.0


From 5096648734e31267c6e6d4c88bd05965289e61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:17 +0000
Subject: [PATCH 37/37] fix: keep reading the peer whose data was handled while
 disconnecting

---
 libamqpprox/amqpprox_session.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index c183565..c2ad46b 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -963,14 +963,20 @@ void Session::handleData(FlowType direction)
         Buffer ingressWrite = processor.ingressWrite();
         Buffer egressWrite  = processor.egressWrite();
 
-        bool isOpen = d_connector.state() == Connector::State::OPEN;
+        // During the login it is the side written to which has to answer. From
+        // then on, also while closing, both sides are read all the time and
+        // the one just read from is to be continued.
+        const bool loggedIn =
+            d_connector.state() == Connector::State::OPEN ||
+            d_connector.state() == Connector::State::CLIENT_CLOSE_SENT ||
+            d_connector.state() == Connector::State::SERVER_CLOSE_SENT;
         if (ingressWrite.size()) {
-            handleWriteData(isOpen ? FlowType::EGRESS : FlowType::INGRESS,
+            handleWriteData(loggedIn ? direction : FlowType::INGRESS,
                             *d_serverSocket,
                             ingressWrite);
         }
         else if (egressWrite.size()) {
-            handleWriteData(isOpen ? FlowType::INGRESS : FlowType::EGRESS,
+            handleWriteData(loggedIn ? direction : FlowType::EGRESS,
                             *d_clientSocket,
                             egressWrite);
         }
-- 
2.43.0

