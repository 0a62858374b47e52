From f39bfbe26434757bdf756d7529f6d9e1b52dd975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 01/11] fix: IntBitMap and LongBitMap clear() set the bit
 instead of clearing it

---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 2 +-
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index 78dcf42..f563abc 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -14,7 +14,7 @@ public final class IntBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     int bit = 1 << (31 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 2e9d1d7..018aba8 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -14,7 +14,7 @@ public final class LongBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     long bit = 1L << (63 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
-- 
2.43.0


From 131784c61304e7c738b9234f7fb960db4e04b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 02/11] fix: Short/Int/LongBitMap lost bits between write() and
 read()

---
 .../java/com/finproto/bitmap/IntBitMap.java   |  6 ++---
 .../java/com/finproto/bitmap/LongBitMap.java  |  6 ++---
 .../java/com/finproto/bitmap/ShortBitMap.java | 23 ++++++++++++-------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index f563abc..f330776 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -24,9 +24,9 @@ public final class IntBitMap implements BitMap {
 
   @Override
   public void write(ByteBuf buf) {
-    for (int i = 0; i < 4; i++) {
-      byte b = (byte) ((bits >> (24 - i * 7)) & 0x7F);
-      if (i < 3) b |= 0x80;
+    for (int i = 0; i < 5; i++) {
+      byte b = (byte) ((bits >>> (i * 7)) & 0x7F);
+      if (i < 4) b |= 0x80;
       buf.writeByte(b);
     }
   }
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 018aba8..2bb7570 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -25,9 +25,9 @@ public final class LongBitMap implements BitMap {
   @Override
   public void write(ByteBuf buf) {
     long val = bits;
-    for (int i = 0; i < 8; i++) {
-      byte b = (byte) ((val >> (49 - i * 7)) & 0x7F);
-      if (i < 7) b |= 0x80;
+    for (int i = 0; i < 10; i++) {
+      byte b = (byte) ((val >>> (i * 7)) & 0x7F);
+      if (i < 9) b |= 0x80;
       buf.writeByte(b);
     }
   }
diff --git a/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java b/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
index 5df3234..00a9ae9 100644
--- a/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
@@ -24,18 +24,25 @@ public final class ShortBitMap implements BitMap {
 
   @Override
   public void write(ByteBuf buf) {
-    byte high = (byte) ((bits >> 8) & 0xFF);
-    byte low = (byte) (bits & 0xFF);
-    high |= 0x80;
-    buf.writeByte(high);
-    buf.writeByte(low);
+    int val = bits & 0xFFFF;
+    for (int i = 0; i < 3; i++) {
+      byte b = (byte) ((val >>> (i * 7)) & 0x7F);
+      if (i < 2) b |= 0x80;
+      buf.writeByte(b);
+    }
   }
 
   @Override
   public void read(ByteBuf buf) {
-    byte b1 = buf.readByte();
-    byte b2 = buf.readByte();
-    bits = (short) (((b1 & 0x7F) << 8) | (b2 & 0x7F));
+    bits = 0;
+    boolean cont;
+    int shift = 0;
+    do {
+      byte b = buf.readByte();
+      cont = (b & 0x80) != 0;
+      bits |= (b & 0x7F) << shift;
+      shift += 7;
+    } while (cont);
   }
 
   @Override
-- 
2.43.0


From 8118a6d600ead62ed24c1074b75928b9cb508c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 03/11] fix: writeFixedString with padLeft wrote nothing for a
 null or empty string

---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 5d8d8e6..1edfa1b 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -24,6 +24,8 @@ public interface BinaryCodec {
         padChar(byteBuf, len - writedLen, padChar);
       }
       byteBuf.writeBytes(bytes, 0, writedLen);
+    } else if (padLeft) {
+      padChar(byteBuf, len, padChar);
     }
     if (!padLeft && writedLen < len) {
       padChar(byteBuf, len - writedLen, padChar);
-- 
2.43.0


From af4ebb8f9fbf7b8f66a42896f682a6a960a6e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 04/11] fix: readFixedString read past the end of the readable
 bytes

---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 1edfa1b..9b05919 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -62,7 +62,7 @@ public interface BinaryCodec {
   }
 
   default String readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft) {
-    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);
     if (padLeft) {
       return trimByChar(value, trimPadChar, true);
     } else {
-- 
2.43.0


From eec42d87947bc8e4d97c219961724a55978bbf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 05/11] fix: length-prefixed string fields read past the end of
 the readable bytes

---
 .../com/finproto/risk/bin/messages/CancelReject.java |  8 ++++----
 .../finproto/risk/bin/messages/ExecutionReport.java  |  6 +++---
 .../com/finproto/risk/bin/messages/NewOrder.java     |  8 ++++----
 .../com/finproto/risk/bin/messages/OrderCancel.java  | 10 +++++-----
 .../com/finproto/risk/bin/messages/OrderConfirm.java |  8 ++++----
 .../com/finproto/risk/bin/messages/RiskResult.java   |  4 ++--
 .../com/finproto/sample/messages/StringPacket.java   | 12 ++++--------
 .../com/finproto/szse/bin/messages/Extend206302.java |  2 +-
 8 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 923489e..cae71ea 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -96,21 +96,21 @@ public class CancelReject implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 2cadc59..14558d0 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -99,15 +99,15 @@ public class ExecutionReport implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 78dcf79..b36cd40 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -125,15 +125,15 @@ public class NewOrder implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -141,7 +141,7 @@ public class NewOrder implements BinaryCodec {
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
     if (accountLen > 0) {
-      this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+      this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 458743d..d7e8b80 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -102,25 +102,25 @@ public class OrderCancel implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 2d23d1e..28ae510 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -105,22 +105,22 @@ public class OrderConfirm implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e6fe4c8..e307e0d 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -61,12 +61,12 @@ public class RiskResult implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     if (riskReasonLen > 0) {
-      this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+      this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7433f9b..7c62ae4 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -212,12 +212,12 @@ public class StringPacket implements BinaryCodec {
     short fieldDynamicStringLen = byteBuf.readShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
-          byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     }
     short fieldDynamicString1Len = byteBuf.readShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
-          byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -230,9 +230,7 @@ public class StringPacket implements BinaryCodec {
         short fieldDynamicStringListLen = byteBuf.readShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
-                  .toString());
+              byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
         }
       }
     }
@@ -243,9 +241,7 @@ public class StringPacket implements BinaryCodec {
         short fieldDynamicString1ListLen = byteBuf.readShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
-                  .toString());
+              byteBuf.readSlice(fieldDynamicString1ListLen).toString(StandardCharsets.UTF_8));
         }
       }
     }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 995c7f9..5d73cf5 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -111,7 +111,7 @@ public class Extend206302 implements BinaryCodec {
     int imcrejectTextLen = byteBuf.readInt();
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
-          byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
     }
   }
 
-- 
2.43.0


From c97be501d87a90c75cc18f3257c37631249a4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 06/11] fix: 16-bit list counts and string lengths above 32767
 were read as negative

---
 .../bjse/trade/messages/PlatformInfo.java     |  2 +-
 .../bjse/trade/messages/QuoteResponse.java    |  2 +-
 .../messages/QuoteStatusReportExtend070.java  |  2 +-
 .../trade/messages/ReportSynchronization.java |  2 +-
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++----------
 .../sample/messages/NestedPacket.java         |  4 ++--
 .../sample/messages/StringPacket.java         | 20 ++++++++---------
 .../finproto/sample/messages/SubPacket.java   |  2 +-
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++--
 .../sse/bin/messages/ExecRptSync.java         |  2 +-
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 +-
 11 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index ff194c1..127c197 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -43,7 +43,7 @@ public class PlatformInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
-    short noPartitionsSize = byteBuf.readShortLE();
+    int noPartitionsSize = byteBuf.readUnsignedShortLE();
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 07fffbd..ce4b122 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -245,7 +245,7 @@ public class QuoteResponse implements BinaryCodec {
     this.validUntilTime = byteBuf.readLongLE();
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
-    short quote2Size = byteBuf.readShortLE();
+    int quote2Size = byteBuf.readUnsignedShortLE();
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8c2e0ae..ea92074 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -153,7 +153,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.cashMargin = readFixedString(byteBuf, 1);
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
-    short quote1Size = byteBuf.readShortLE();
+    int quote1Size = byteBuf.readUnsignedShortLE();
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 5e50c56..2c545f0 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -32,7 +32,7 @@ public class ReportSynchronization implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short reportPartitionSyncSize = byteBuf.readShortLE();
+    int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 43445e1..b80c25f 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -323,77 +323,77 @@ public class BasicPacket implements BinaryCodec {
     this.fieldU64 = byteBuf.readLongLE();
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
-    short fieldI8ListSize = byteBuf.readShortLE();
+    int fieldI8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
     }
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldI32ListSize = byteBuf.readShortLE();
+    int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldI64ListSize = byteBuf.readShortLE();
+    int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldCharListSize = byteBuf.readShortLE();
+    int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldU8ListSize = byteBuf.readShortLE();
+    int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
     }
-    short fieldU16ListSize = byteBuf.readShortLE();
+    int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldU32ListSize = byteBuf.readShortLE();
+    int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldU64ListSize = byteBuf.readShortLE();
+    int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldF32ListSize = byteBuf.readShortLE();
+    int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
     }
-    short fieldF64ListSize = byteBuf.readShortLE();
+    int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 35d56a4..5530162 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -56,7 +56,7 @@ public class NestedPacket implements BinaryCodec {
       this.subPacket = new SubPacket();
     }
     this.subPacket.decode(byteBuf);
-    short subPacketListSize = byteBuf.readShortLE();
+    int subPacketListSize = byteBuf.readUnsignedShortLE();
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -139,7 +139,7 @@ public class NestedPacket implements BinaryCodec {
     @Override
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
-      short fieldI16ListSize = byteBuf.readShortLE();
+      int fieldI16ListSize = byteBuf.readUnsignedShortLE();
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7c62ae4..d229455 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -209,12 +209,12 @@ public class StringPacket implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short fieldDynamicStringLen = byteBuf.readShortLE();
+    int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     }
-    short fieldDynamicString1Len = byteBuf.readShortLE();
+    int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
@@ -223,50 +223,50 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
-    short fieldDynamicStringListSize = byteBuf.readShortLE();
+    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
-        short fieldDynamicStringListLen = byteBuf.readShortLE();
+        int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
               byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
         }
       }
     }
-    short fieldDynamicString1ListSize = byteBuf.readShortLE();
+    int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
-        short fieldDynamicString1ListLen = byteBuf.readShortLE();
+        int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
               byteBuf.readSlice(fieldDynamicString1ListLen).toString(StandardCharsets.UTF_8));
         }
       }
     }
-    short fieldFixedString1ListSize = byteBuf.readShortLE();
+    int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldFixedString10ListSize = byteBuf.readShortLE();
+    int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
     }
-    short fieldFixedString10ListPadSize = byteBuf.readShortLE();
+    int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
     }
-    short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
+    int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 5de2656..fd11a55 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -43,7 +43,7 @@ public class SubPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 8d6906a..3ad1f94 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -60,14 +60,14 @@ public class ExecRptInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
-    short pbuSize = byteBuf.readShort();
+    int pbuSize = byteBuf.readUnsignedShort();
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
     }
-    short setIdSize = byteBuf.readShort();
+    int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 200e8f8..5bca71f 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -32,7 +32,7 @@ public class ExecRptSync implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncSize = byteBuf.readShort();
+    int subExecRptSyncSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index e77621b..246c39e 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -32,7 +32,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncRspSize = byteBuf.readShort();
+    int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
-- 
2.43.0


From 88d148ae02780889f5887286fb5690549571bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 07/11] fix: StringPacket dropped empty strings from its
 dynamic string lists on decode

---
 .../com/finproto/sample/messages/StringPacket.java   | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index d229455..611b619 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -228,10 +228,8 @@ public class StringPacket implements BinaryCodec {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
         int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
-        if (fieldDynamicStringListLen > 0) {
-          this.fieldDynamicStringList.add(
-              byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
-        }
+        this.fieldDynamicStringList.add(
+            byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
       }
     }
     int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
@@ -239,10 +237,8 @@ public class StringPacket implements BinaryCodec {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
         int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
-        if (fieldDynamicString1ListLen > 0) {
-          this.fieldDynamicString1List.add(
-              byteBuf.readSlice(fieldDynamicString1ListLen).toString(StandardCharsets.UTF_8));
-        }
+        this.fieldDynamicString1List.add(
+            byteBuf.readSlice(fieldDynamicString1ListLen).toString(StandardCharsets.UTF_8));
       }
     }
     int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
-- 
2.43.0


From 75358555f0770926201b454520a70a167f4a1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 08/11] fix: decode kept the old list or string when the
 decoded one is empty

---
 .../finproto/bjse/trade/messages/PlatformInfo.java    |  1 +
 .../finproto/bjse/trade/messages/QuoteResponse.java   |  1 +
 .../trade/messages/QuoteStatusReportExtend070.java    |  1 +
 .../bjse/trade/messages/ReportSynchronization.java    |  1 +
 .../com/finproto/risk/bin/messages/CancelReject.java  |  4 ++++
 .../finproto/risk/bin/messages/ExecutionReport.java   |  3 +++
 .../java/com/finproto/risk/bin/messages/NewOrder.java |  4 ++++
 .../com/finproto/risk/bin/messages/OrderCancel.java   |  5 +++++
 .../com/finproto/risk/bin/messages/OrderConfirm.java  |  4 ++++
 .../com/finproto/risk/bin/messages/RiskResult.java    |  2 ++
 .../com/finproto/sample/messages/BasicPacket.java     | 11 +++++++++++
 .../com/finproto/sample/messages/NestedPacket.java    |  2 ++
 .../com/finproto/sample/messages/StringPacket.java    |  8 ++++++++
 .../java/com/finproto/sample/messages/SubPacket.java  |  1 +
 .../com/finproto/sse/bin/messages/ExecRptInfo.java    |  2 ++
 .../com/finproto/sse/bin/messages/ExecRptSync.java    |  1 +
 .../com/finproto/sse/bin/messages/ExecRptSyncRsp.java |  1 +
 .../com/finproto/szse/bin/messages/Extend206302.java  |  1 +
 .../com/finproto/szse/bin/messages/PlatformInfo.java  |  1 +
 .../szse/bin/messages/ReportSynchronization.java      |  1 +
 20 files changed, 55 insertions(+)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index 127c197..7704519 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -44,6 +44,7 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
     int noPartitionsSize = byteBuf.readUnsignedShortLE();
+    this.noPartitions = null;
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index ce4b122..e9baa7e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -246,6 +246,7 @@ public class QuoteResponse implements BinaryCodec {
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
     int quote2Size = byteBuf.readUnsignedShortLE();
+    this.quote2 = null;
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index ea92074..d60b47c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -154,6 +154,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
     int quote1Size = byteBuf.readUnsignedShortLE();
+    this.quote1 = null;
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 2c545f0..e0bd597 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -33,6 +33,7 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
+    this.reportPartitionSync = null;
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index cae71ea..cfb9278 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -94,20 +94,24 @@ public class CancelReject implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
+    this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 14558d0..94d8ce0 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -97,15 +97,18 @@ public class ExecutionReport implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int ordCnfmIdLen = byteBuf.readInt();
+    this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index b36cd40..88606f3 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -123,15 +123,18 @@ public class NewOrder implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
+    this.securityId = null;
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
@@ -140,6 +143,7 @@ public class NewOrder implements BinaryCodec {
     this.orderQty = byteBuf.readLong();
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
+    this.account = null;
     if (accountLen > 0) {
       this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index d7e8b80..6b0aedc 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -100,25 +100,30 @@ public class OrderCancel implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
+    this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
+    this.securityId = null;
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 28ae510..f0b518a 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -103,22 +103,26 @@ public class OrderConfirm implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
+    this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e307e0d..7c4fb89 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -59,12 +59,14 @@ public class RiskResult implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
+    this.riskReason = null;
     if (riskReasonLen > 0) {
       this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index b80c25f..6499f9a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -324,6 +324,7 @@ public class BasicPacket implements BinaryCodec {
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
     int fieldI8ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI8List = null;
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
@@ -331,6 +332,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldI16ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI16List = null;
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
@@ -338,6 +340,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldI32ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI32List = null;
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
@@ -345,6 +348,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldI64ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI64List = null;
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
@@ -352,6 +356,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldCharListSize = byteBuf.readUnsignedShortLE();
+    this.fieldCharList = null;
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
@@ -359,6 +364,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU8ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU8List = null;
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
@@ -366,6 +372,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU16ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU16List = null;
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
@@ -373,6 +380,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU32ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU32List = null;
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
@@ -380,6 +388,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU64ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU64List = null;
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
@@ -387,6 +396,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldF32ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldF32List = null;
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
@@ -394,6 +404,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldF64ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldF64List = null;
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 5530162..226ff0e 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -57,6 +57,7 @@ public class NestedPacket implements BinaryCodec {
     }
     this.subPacket.decode(byteBuf);
     int subPacketListSize = byteBuf.readUnsignedShortLE();
+    this.subPacketList = null;
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -140,6 +141,7 @@ public class NestedPacket implements BinaryCodec {
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
       int fieldI16ListSize = byteBuf.readUnsignedShortLE();
+      this.fieldI16List = null;
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 611b619..f526aa5 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -210,11 +210,13 @@ public class StringPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicString = null;
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     }
     int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicString1 = null;
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
@@ -224,6 +226,7 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
     int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicStringList = null;
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
@@ -233,6 +236,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicString1List = null;
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
@@ -242,6 +246,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString1List = null;
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
@@ -249,6 +254,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString10List = null;
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
@@ -256,6 +262,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString10ListPad = null;
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
@@ -263,6 +270,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString10PadWithNullTerminatorList = null;
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index fd11a55..7425210 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -44,6 +44,7 @@ public class SubPacket implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
     int fieldI16ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI16List = null;
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 3ad1f94..4f7cd85 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -61,6 +61,7 @@ public class ExecRptInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int pbuSize = byteBuf.readUnsignedShort();
+    this.pbu = null;
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
@@ -68,6 +69,7 @@ public class ExecRptInfo implements BinaryCodec {
       }
     }
     int setIdSize = byteBuf.readUnsignedShort();
+    this.setId = null;
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 5bca71f..3859790 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -33,6 +33,7 @@ public class ExecRptSync implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int subExecRptSyncSize = byteBuf.readUnsignedShort();
+    this.subExecRptSync = null;
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index 246c39e..526ee1b 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -33,6 +33,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
+    this.subExecRptSyncRsp = null;
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 5d73cf5..0c29e6d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -109,6 +109,7 @@ public class Extend206302 implements BinaryCodec {
     this.lotType = readFixedString(byteBuf, 1);
     this.imcrejectTextLen = byteBuf.readInt();
     int imcrejectTextLen = byteBuf.readInt();
+    this.imcrejectText = null;
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
           byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 3ce9ee0..23c893e 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -44,6 +44,7 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int platformPartitionSize = byteBuf.readInt();
+    this.platformPartition = null;
     if (platformPartitionSize > 0) {
       this.platformPartition = new ArrayList<>();
       for (int i = 0; i < platformPartitionSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 5a8674c..9980e63 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -33,6 +33,7 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int partitionReportSize = byteBuf.readInt();
+    this.partitionReport = null;
     if (partitionReportSize > 0) {
       this.partitionReport = new ArrayList<>();
       for (int i = 0; i < partitionReportSize; i++) {
-- 
2.43.0


From 83f7f5bc1da40c5c275fa14abec06f72a0bf9510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 09/11] fix: frame checksum covered bytes outside the frame

---
 .../main/java/com/finproto/sample/messages/RootPacket.java  | 6 +++++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java  | 6 +++++-
 .../java/com/finproto/szse/bin/messages/SzseBinary.java     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 1cafb0c..355050d 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -50,6 +50,7 @@ public class RootPacket implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeShortLE(this.msgType);
     int payloadLenPos = byteBuf.writerIndex();
     byteBuf.writeIntLE(0);
@@ -64,7 +65,10 @@ public class RootPacket implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("CRC32");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeIntLE(this.checksum);
   }
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 6827a93..0cc1acb 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -59,6 +59,7 @@ public class SseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     byteBuf.writeLong(this.msgSeqNum);
     int msgBodyLenPos = byteBuf.writerIndex();
@@ -74,7 +75,10 @@ public class SseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index a064023..e1a5d52 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -50,6 +50,7 @@ public class SzseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     int bodyLengthPos = byteBuf.writerIndex();
     byteBuf.writeInt(0);
@@ -64,7 +65,10 @@ public class SzseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
-- 
2.43.0


From b8f6aa2ba64d1a32219d09bbac0ea528018d337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 10/11] fix: the SSE_BIN and SZSE_BIN checksum services were
 never registered

---
 .../main/java/com/finproto/codec/ChecksumServiceFactory.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index b4947d7..0fb10a5 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -15,6 +15,8 @@ public enum ChecksumServiceFactory {
   private ChecksumServiceFactory() {
     registry(new Crc16ChecksumService());
     registry(new Crc32ChecksumService());
+    registry(new SseBinChecksumService());
+    registry(new SzseBinChecksumService());
   }
 
   public void removeChecksumService(String name) {
-- 
2.43.0


From 0984bf634537546c10248a2bf2fdbf8e7d190af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 11/11] fix: hashCode of messages without fields recursed
 forever

---
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend041.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend042.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend043.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend044.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend045.java | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend041.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend042.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend043.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend044.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend045.java   | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder041.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder042.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder043.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder044.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder045.java     | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Heartbeat.java   | 2 +-
 .../java/com/finproto/bjse/trade/messages/QuoteExtend071.java   | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend061.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend060.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend061.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend060.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend061.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend061.java        | 2 +-
 .../src/main/java/com/finproto/sample/messages/EmptyPacket.java | 2 +-
 .../src/main/java/com/finproto/sse/bin/messages/Heartbeat.java  | 2 +-
 .../src/main/java/com/finproto/szse/bin/messages/Heartbeat.java | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
index 4337fd1..0a9e43c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
@@ -14,7 +14,7 @@ public class ConfirmExtend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
index 373f9d0..578fd66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
@@ -14,7 +14,7 @@ public class ConfirmExtend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
index 49d18a2..4d0ebeb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
@@ -14,7 +14,7 @@ public class ConfirmExtend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
index 609f670..af9e27f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
@@ -14,7 +14,7 @@ public class ConfirmExtend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
index 2c41e8c..764c0f4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
@@ -14,7 +14,7 @@ public class ConfirmExtend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
index 3a7dc0a..f4958a3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
@@ -14,7 +14,7 @@ public class Extend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
index 491766d..7353ef7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
@@ -14,7 +14,7 @@ public class Extend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
index de963cd..3fcfd6f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
@@ -14,7 +14,7 @@ public class Extend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
index aa23b27..0b6b066 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
@@ -14,7 +14,7 @@ public class Extend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
index 4086ae8..dedda75 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
@@ -14,7 +14,7 @@ public class Extend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
index 400bdd0..e58bdcc 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
index eef02f0..bad5f0e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
index 01f43f9..80c9bb2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
index 253e558..03c4c31 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
index c89907e..e9c1e66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
index c90284b..32223c6 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
index 79019eb..498a774 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
@@ -14,7 +14,7 @@ public class QuoteExtend071 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
index 932549e..01ff4f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
index 5c23cec..23034b3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
index 2fb2ab9..a489dec 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
index df3faa7..eadab1c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
index bb63a9d..a77a391 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
index 243d0e8..d355914 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
index 8bc38be..151ec61 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
index ddd9f60..768555b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
index 765c155..3ec186a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
@@ -14,7 +14,7 @@ public class EmptyPacket implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
index 988f970..5626874 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
index 92acb8d..ea9135f 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
-- 
2.43.0

