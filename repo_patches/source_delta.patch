From ac30adf15dd1519535ea03d5a376108e5e5c8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 01/36] fix: parse the device estimate of a NBID addressee as
 the compressed time it is

---
 d7a/d7anp/addressee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index 9a287ba..dfc3cc4 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -123,9 +123,10 @@ class Addressee(Validatable):
     nls_method = NlsMethod(s.read("uint:4"))
     cl    = s.read("uint:8")
     l     = Addressee.length_for(id_type)
-    id    = s.read("uint:"+str(l*8)) if l > 0 else None
     if id_type == IdType.NBID:
-      id = CT().compress(value=id)
+      id = CT.parse(s)
+    else:
+      id = s.read("uint:"+str(l*8)) if l > 0 else None
 
     return Addressee(id_type=id_type, access_class=cl, id=id, nls_method=nls_method)
 
-- 
2.43.0


From ae85253849e5b64dcbaae1ced0bb1c5682a28a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 02/36] fix: validate file permissions and the action condition
 under their actual attribute names

---
 d7a/fs/file_permissions.py | 8 ++++----
 d7a/fs/file_properties.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index 357f8cd..d27b76b 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -29,11 +29,11 @@ class FilePermissions(Validatable):
     "encrypted": Types.BOOLEAN(),
     "executable": Types.BOOLEAN(),
     "user_readable": Types.BOOLEAN(),
-    "user_writable": Types.BOOLEAN(),
-    "user_executable": Types.BOOLEAN(),
+    "user_writeable": Types.BOOLEAN(),
+    "user_executeable": Types.BOOLEAN(),
     "guest_readable": Types.BOOLEAN(),
-    "guest_writable": Types.BOOLEAN(),
-    "guest_executable": Types.BOOLEAN()
+    "guest_writeable": Types.BOOLEAN(),
+    "guest_executeable": Types.BOOLEAN()
   }]
 
   def __init__(self, encrypted=False, executeable=False, user_readable=True, user_writeable=True, user_executeable=True,
diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index ab2b3d7..4e621eb 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -43,7 +43,7 @@ class StorageClass(Enum):
 class FileProperties(Validatable):
   SCHEMA = [{
     "act_enabled": Types.BOOLEAN(),
-    "act_cond": Types.ENUM(ActionCondition),
+    "act_condition": Types.ENUM(ActionCondition),
     "storage_class": Types.ENUM(StorageClass),
   }]
 
-- 
2.43.0


From 494197f44c49a5bc3e7687e2d899ac4b1c1f8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 03/36] fix: print LoRa channels with their own letter, compare
 channel headers consistently

---
 d7a/phy/channel_header.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index ab7d86e..9e5b769 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -51,7 +51,7 @@ class ChannelClass(Enum):
 
   def to_char(self):
     c = self.name[:1]
-    if self.value == ChannelClass.LORA:
+    if self == ChannelClass.LORA:
       c = "R"
 
     return c
@@ -127,6 +127,4 @@ class ChannelHeader(Validatable):
     return False
 
   def __ne__(self, other):
-    if isinstance(other, self.__class__):
-      return not self.__eq__(other)
-    return False
\ No newline at end of file
+    return not self.__eq__(other)
\ No newline at end of file
-- 
2.43.0


From d8bb252ab49f513f8a88d5e7ed1067c970a26622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 04/36] fix: read the whole channel index from a channel id
 string

---
 d7a/phy/channel_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_id.py b/d7a/phy/channel_id.py
index 3f82806..ae364c5 100644
--- a/d7a/phy/channel_id.py
+++ b/d7a/phy/channel_id.py
@@ -56,5 +56,5 @@ class ChannelID(Validatable):
   @staticmethod
   def from_string(s):
       channel_header = ChannelHeader.from_string(s[0:5])
-      channel_index = int(s[5:8])
+      channel_index = int(s[5:])
       return ChannelID(channel_header=channel_header, channel_index=channel_index)
\ No newline at end of file
-- 
2.43.0


From 65ff4494d2fca87560c5c534925ebb9881b3a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 05/36] fix: serialise a forward action without asking it for a
 group flag

---
 d7a/alp/forward_action.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index b1e4814..74c9304 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -42,7 +42,6 @@ class ForwardAction(Action):
 
   def __iter__(self):
     byte = 0
-    if self.group: byte |= 1 << 7
     if self.resp:  byte |= 1 << 6
     byte += self.op
     yield byte
-- 
2.43.0


From 287e12e0f7d5107af907780f53f4444ba8fefe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 06/36] fix: serialise an interface status operand that carries
 no status

---
 d7a/alp/operands/interface_status.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/operands/interface_status.py b/d7a/alp/operands/interface_status.py
index 5aa883b..74dc5e0 100644
--- a/d7a/alp/operands/interface_status.py
+++ b/d7a/alp/operands/interface_status.py
@@ -39,7 +39,8 @@ class InterfaceStatusOperand(Validatable):
 
   def __iter__(self):
     yield self.interface_id
-    for byte in self.interface_status: yield byte
+    if self.interface_status is not None:
+      for byte in self.interface_status: yield byte
 
   def __str__(self):
     return "interface-id={}, status={}".format(self.interface_id, self.interface_status)
-- 
2.43.0


From 5d445351ce5de6836c606b74a5399976a7b7c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 07/36] fix: parse the full range of reception levels and
 validate the unicast flag of a status

---
 d7a/sp/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index a4edd06..b0870b2 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -61,7 +61,7 @@ class Status(Validatable):
     "nls"        : Types.BOOLEAN(),
     "missed"     : Types.BOOLEAN(),
     "retry"      : Types.BOOLEAN(),
-    "ucast"      : Types.BOOLEAN(),
+    "unicast"    : Types.BOOLEAN(),
     "fifo_token" : Types.BYTE(),
     "seq_nr"     : Types.BYTE(),
     "response_to": Types.OBJECT(CT),
@@ -88,7 +88,7 @@ class Status(Validatable):
   @staticmethod
   def parse(s):
     channel_id  = ChannelID.parse(s)
-    rx_level        = s.read("int:8")
+    rx_level        = s.read("uint:8")
     link_budget     = s.read("uint:8")
     target_rx_level = s.read("uint:8")
     nls             = s.read("bool")
-- 
2.43.0


From e0d6acc2c8bb10ad743cc5df511d896880c448a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 08/36] fix: parse host and serial interface statuses as such,
 consuming their stated length

---
 d7a/alp/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/parser.py b/d7a/alp/parser.py
index 1c0ab3a..283f02e 100644
--- a/d7a/alp/parser.py
+++ b/d7a/alp/parser.py
@@ -206,7 +206,8 @@ class Parser(object):
     return ForwardAction(resp=b6, operation=Forward(operand=InterfaceConfiguration(interface_id=interface_id,
                                                                                    interface_configuration=interface_config)))
   def parse_alp_interface_status_host(self, s, length):
-    pass # no interface status defined for host interface
+    s.read("bytes:" + str(length)) # no interface status defined for host interface
+    return InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0x00, interface_status=None))
 
   def parse_alp_interface_status_d7asp(self, s, length):
     status = None
@@ -218,6 +219,7 @@ class Parser(object):
     )
 
   def parse_alp_interface_status_serial(self, s, length):
+    s.read("bytes:" + str(length)) # no interface status defined for serial interface
     return InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0x01, interface_status=None))
 
   def parse_offset(self, s):
-- 
2.43.0


From 79746ff102048f79dbb10a6b0576f0adc8445cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 09/36] fix: serialise the operand of an operation on empty
 file data

---
 d7a/alp/operations/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/alp/operations/operation.py b/d7a/alp/operations/operation.py
index ec450f2..5132765 100644
--- a/d7a/alp/operations/operation.py
+++ b/d7a/alp/operations/operation.py
@@ -46,7 +46,7 @@ class Operation(Validatable):
     self.operand = operand
 
   def __iter__(self):
-    if self.operand:
+    if self.operand is not None:
       for byte in self.operand: yield byte
 
   def __str__(self):
-- 
2.43.0


From b8110a4281bcb6f7005d4982b16bb69d2b60e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 10/36] fix: validate the preamble tolerances of the factory
 settings under their attribute names

---
 d7a/system_files/factory_settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 4bc2156..a48d85a 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -48,7 +48,9 @@ class FactorySettingsFile(File, Validatable):
     "preamble_detector_size_lo_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_normal_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_hi_rate": Types.INTEGER(min=0, max=255),
-    "preamble_tol": Types.INTEGER(min=0, max=255),
+    "preamble_tol_lo_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_normal_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_hi_rate": Types.INTEGER(min=0, max=255),
     "rssi_smoothing": Types.INTEGER(min=0, max=255),
     "rssi_offset": Types.INTEGER(min=-126, max=125),
     "lora_bw": Types.INTEGER(min=0, max=0xFFFFFFFF),
-- 
2.43.0


From efc2df92449287bb07be803e87dd359d2b9cead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 11/36] fix: read back factory settings as they were written,
 serialise negative gains and offsets

---
 d7a/system_files/factory_settings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index a48d85a..33e5f1b 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -120,8 +120,8 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_normal_rate = s.read("uint:8")
     preamble_tol_hi_rate = s.read("uint:8")
 
-    rssi_smoothing = s.read("uint:8")
-    rssi_offset = s.read("uint:8")
+    rssi_smoothing = 2 ** (s.read("uint:8") + 1) # stored as log2 - 1
+    rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
     lora_SF = s.read("uint:8")
@@ -143,7 +143,8 @@ class FactorySettingsFile(File, Validatable):
                                gaussian=gaussian, paramp=paramp)
 
   def __iter__(self):
-    yield self.gain
+    for byte in bytearray(struct.pack(">b", self.gain)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_low_rate)):
       yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_normal_rate)):
@@ -172,7 +173,8 @@ class FactorySettingsFile(File, Validatable):
     yield self.preamble_tol_normal_rate
     yield self.preamble_tol_hi_rate
     yield self.rssi_smoothing
-    yield self.rssi_offset
+    for byte in bytearray(struct.pack(">b", self.rssi_offset)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.lora_bw)):
       yield byte
     yield self.lora_SF
-- 
2.43.0


From b2d6dc4900b64beafe26d2c3ccd16c060d1dd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 12/36] fix: parse security and authentication key files to the
 number they were written from

---
 d7a/system_files/root_authentication_key.py | 2 +-
 d7a/system_files/security_key.py            | 2 +-
 d7a/system_files/user_authentication_key.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/root_authentication_key.py b/d7a/system_files/root_authentication_key.py
index 9e6bc13..4a52ab9 100644
--- a/d7a/system_files/root_authentication_key.py
+++ b/d7a/system_files/root_authentication_key.py
@@ -43,7 +43,7 @@ class RootAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16") 
+    key = s.read("uintle:128") 
     _rfu = s.read("bytes:24")
     return RootAuthenticationKeyFile(key)
 
diff --git a/d7a/system_files/security_key.py b/d7a/system_files/security_key.py
index c9085e2..52cfa5e 100644
--- a/d7a/system_files/security_key.py
+++ b/d7a/system_files/security_key.py
@@ -41,7 +41,7 @@ class SecurityKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     return SecurityKeyFile(key=key)
 
   def __iter__(self):
diff --git a/d7a/system_files/user_authentication_key.py b/d7a/system_files/user_authentication_key.py
index fd95a60..42a718e 100644
--- a/d7a/system_files/user_authentication_key.py
+++ b/d7a/system_files/user_authentication_key.py
@@ -43,7 +43,7 @@ class UserAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return UserAuthenticationKeyFile(key)
 
-- 
2.43.0


From 8cd428c88df9928be67b2b1aedf57a75b809a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 13/36] fix: refuse a key one above the largest 128 bit number

---
 d7a/support/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 9b93611..292f609 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -139,7 +139,7 @@ class Types(object):
 
   @staticmethod
   def BITS(length, min=0x0, max=None):
-    max = max if max is not None else math.pow(2, length)-1
+    max = max if max is not None else (1 << length) - 1
     return { "type": "integer", "min": 0x0, "max": max }
 
   @staticmethod
-- 
2.43.0


From 45179210551a10041fe27b80d4be4cfbfbfcaad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 14/36] fix: give system files without a parser a numeric file
 id, like all others

---
 d7a/system_files/system_files.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/d7a/system_files/system_files.py b/d7a/system_files/system_files.py
index 42d8e64..1c0eb25 100644
--- a/d7a/system_files/system_files.py
+++ b/d7a/system_files/system_files.py
@@ -43,34 +43,34 @@ class SystemFiles:
     SystemFileIds.FACTORY_SETTINGS: FactorySettingsFile(),
     SystemFileIds.FIRMWARE_VERSION: FirmwareVersionFile(),
     SystemFileIds.DEVICE_CAPACITY: NotImplementedFile(SystemFileIds.DEVICE_CAPACITY.value, 19),
-    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS, 9),
+    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS.value, 9),
     SystemFileIds.ENGINEERING_MODE: EngineeringModeFile(),
     SystemFileIds.VID: VidFile(),
-    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07, 0),
-    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG, 9),
+    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07.value, 0),
+    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG.value, 9),
     SystemFileIds.PHY_STATUS: PhyStatusFile(),  # TODO assuming 3 channels for now
     SystemFileIds.DLL_CONFIG: DllConfigFile(),
     SystemFileIds.DLL_STATUS: DllStatusFile(),
-    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING, 1),  # TODO variable routing table
-    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY, 5),
+    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING.value, 1),  # TODO variable routing table
+    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY.value, 5),
     SystemFileIds.NWL_SECURITY_KEY: SecurityKeyFile(),
-    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR, 4),  # TODO 0 recorded devices
-    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS, 20),
-    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS, 1),  # TODO 0 TRL records
-    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG, 6),
-    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS, 10),
-    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14, 0),
-    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15, 0),
-    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16, 0),
-    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA, 1),  # TODO 0 recorded locations
+    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR.value, 4),  # TODO 0 recorded devices
+    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS.value, 20),
+    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS.value, 1),  # TODO 0 TRL records
+    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG.value, 6),
+    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS.value, 10),
+    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14.value, 0),
+    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15.value, 0),
+    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16.value, 0),
+    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA.value, 1),  # TODO 0 recorded locations
     SystemFileIds.ALP_ROOT_AUTHENTICATION_KEY: RootAuthenticationKeyFile(),
     SystemFileIds.ALP_USER_AUTHENTICATION_KEY: UserAuthenticationKeyFile(),
-    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A, 0),
-    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B, 0),
-    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C, 0),
-    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D, 0),
-    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E, 0),
-    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F, 0),
+    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A.value, 0),
+    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B.value, 0),
+    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C.value, 0),
+    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D.value, 0),
+    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E.value, 0),
+    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F.value, 0),
     SystemFileIds.ACCESS_PROFILE_0: AccessProfileFile(access_specifier=0),
     SystemFileIds.ACCESS_PROFILE_1: AccessProfileFile(access_specifier=1),
     SystemFileIds.ACCESS_PROFILE_2: AccessProfileFile(access_specifier=2),
-- 
2.43.0


From c1b7c082f4c442b5b0697a1ea20a88b3233c18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 15/36] fix: do not extend the channel lists shared between PHY
 status files

---
 d7a/system_files/phy_status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 7f233c5..0a41e3b 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -46,11 +46,11 @@ class PhyStatusFile(File, Validatable):
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
-    self.channel_status_identifier = channel_status_identifier
+    self.channel_status_identifier = list(channel_status_identifier)
     if len(channel_status_identifier) != channel_status_list_length:
       self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
 
-    self.channel_noise_floor = channel_noise_floor
+    self.channel_noise_floor = list(channel_noise_floor)
     if len(channel_noise_floor) != channel_status_list_length:
       self.channel_noise_floor.extend([0] * (channel_status_list_length - len(channel_noise_floor)))
 
-- 
2.43.0


From b6746370196d0b601bfb893bd025a1326c5806b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 16/36] fix: validate and print all fields of the DLL
 configuration file

---
 d7a/system_files/dll_config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 2c1dc99..c8b38fd 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -31,10 +31,10 @@ from d7a.system_files.system_file_ids import SystemFileIds
 class DllConfigFile(File, Validatable):
   SCHEMA = [{
     "active_access_class": Types.INTEGER(min=0, max=0xFF),
-    "LQ_filter": Types.INTEGER(min=0, max=0xFF),
-    "NF_CTRL": Types.INTEGER(min=0, max=0xFF),
-    "RX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF),
-    "TX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF)
+    "lq_filter": Types.INTEGER(min=0, max=0xFF),
+    "nf_ctrl": Types.INTEGER(min=0, max=0xFF),
+    "rx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF),
+    "tx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF)
   }]
 
   def __init__(self, active_access_class=0, lq_filter=0x00, nf_ctrl=0x00, rx_nf_method_parameter=0x00
@@ -69,4 +69,4 @@ class DllConfigFile(File, Validatable):
 
 
   def __str__(self):
-    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter, tx_nf_method_parameter".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
+    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter={}, tx_nf_method_parameter={}".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
-- 
2.43.0


From 5f9f1486d27b2002de37071a384c7f86a909f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 17/36] fix: do not parse data from within a system file as if
 it were its start

---
 d7a/alp/operations/responses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/alp/operations/responses.py b/d7a/alp/operations/responses.py
index d09d806..b67c470 100644
--- a/d7a/alp/operations/responses.py
+++ b/d7a/alp/operations/responses.py
@@ -50,8 +50,8 @@ class ReturnFileData(Operation):
       systemfile_type = SystemFiles().files[SystemFileIds(self.operand.offset.id)]
     except:
       return
-    # if the file size is between allocated and original length, try to parse it
-    if (systemfile_type is not None) and (systemfile_type.length >= self.operand.length.value):
+    # if the file size is between allocated and original length, try to parse it (from the start of the file only)
+    if (systemfile_type is not None) and (self.operand.offset.offset.value == 0) and (systemfile_type.length >= self.operand.length.value):
       self.systemfile_type = systemfile_type
       try:
         self.file_data_parsed = systemfile_type.parse(ConstBitStream(bytearray(self.operand.data)))
-- 
2.43.0


From 62244d922b632b421cb2998b77845653ab7efc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 18/36] fix: keep the RSSI smoothing of parsed factory settings
 exactly as stored

---
 d7a/system_files/factory_settings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 33e5f1b..d91e273 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -120,7 +120,7 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_normal_rate = s.read("uint:8")
     preamble_tol_hi_rate = s.read("uint:8")
 
-    rssi_smoothing = 2 ** (s.read("uint:8") + 1) # stored as log2 - 1
+    rssi_smoothing = s.read("uint:8")
     rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
@@ -129,7 +129,7 @@ class FactorySettingsFile(File, Validatable):
     gaussian = s.read("uint:8")
     paramp = s.read("uint:16")
 
-    return FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
+    settings = FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
                                bitrate_lo_rate=bitrate_lo_rate, fdev_lo_rate=fdev_lo_rate,
                                bitrate_normal_rate=bitrate_normal_rate, fdev_normal_rate=fdev_normal_rate,
                                bitrate_hi_rate=bitrate_hi_rate, fdev_hi_rate=fdev_hi_rate,
@@ -138,9 +138,11 @@ class FactorySettingsFile(File, Validatable):
                                preamble_detector_size_normal_rate=preamble_detector_size_normal_rate, preamble_detector_size_hi_rate = preamble_detector_size_hi_rate,
                                preamble_tol_lo_rate = preamble_tol_lo_rate, preamble_tol_normal_rate = preamble_tol_normal_rate,
                                preamble_tol_hi_rate = preamble_tol_hi_rate,
-                               rssi_smoothing=rssi_smoothing, rssi_offset=rssi_offset,
+                               rssi_offset=rssi_offset,
                                lora_bw=lora_bw, lora_SF=lora_SF,
                                gaussian=gaussian, paramp=paramp)
+    settings.rssi_smoothing = rssi_smoothing # the file holds the log2 of the number of samples already
+    return settings
 
   def __iter__(self):
     for byte in bytearray(struct.pack(">b", self.gain)):
-- 
2.43.0


From ae2903855b2c1ed3ca13df013f38f3bbb191a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 19/36] fix: report exceptions without arguments as serial
 frame errors instead of failing on them forever

---
 d7a/serial_modem_interface/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6f9536e..4b5273a 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -122,7 +122,7 @@ class Parser(object):
         retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else repr(e),
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
           "pos"     : s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 4e2aba949281bd5976e5e31d11819e114bace5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 20/36] fix: parse a serial frame's payload within its own
 bounds, do not wait for more once it is complete

---
 d7a/serial_modem_interface/parser.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 4b5273a..480b083 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -102,19 +102,8 @@ class Parser(object):
       try:
         s           = ConstBitStream(bytes=self.buffer)
         cmd_length, message_type = self.parse_serial_interface_header(s)
-        if message_type == MessageType.REBOOTED.value:
-          cmd = s.read("uint:8")
-        elif message_type == MessageType.LOGGING.value:
-          cmd = (s.readlist('bytes:b', b=cmd_length)[0])
-        else:
-          if self.skip_alp_parsing:
-            if s.length < cmd_length:
-              raise ReadError
-
-            cmd = s.read("bytes:" + str(cmd_length))
-          else:
-            cmd = AlpParser().parse(s, cmd_length)
-
+        payload = s.readlist('bytes:b', b=cmd_length)[0]
+        cmd = self.parse_payload(message_type, payload)
         bits_parsed = s.pos
         self.shift_buffer(bits_parsed/8)
         retry = False         # got one, carry on
@@ -135,6 +124,18 @@ class Parser(object):
     }
     return (message_type, cmd, info)
 
+  # parse the complete payload of one frame
+  def parse_payload(self, message_type, payload):
+    s = ConstBitStream(bytes=payload)
+    try:
+      if message_type == MessageType.REBOOTED.value:
+        return s.read("uint:8")
+      if message_type == MessageType.LOGGING.value or self.skip_alp_parsing:
+        return payload
+      return AlpParser().parse(s, len(payload))
+    except ReadError: # the frame is complete, waiting for more data will not help
+      raise ParseError("frame payload ends before its contents do")
+
   def skip_bad_buffer_content(self):
     # skip until we find 0xc0, which might be a valid starting point
     try:
-- 
2.43.0


From e16fd5846948c6ebe4ee6891ccb86c19c1ab1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 21/36] fix: serialise the D7ANP control byte from the fields
 it has

---
 d7a/d7anp/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/d7anp/control.py b/d7a/d7anp/control.py
index e863db7..f998da6 100644
--- a/d7a/d7anp/control.py
+++ b/d7a/d7anp/control.py
@@ -52,7 +52,7 @@ class Control(Validatable):
   def __iter__(self):
     byte = 0
     if self.has_no_origin_access_id: byte |= 1 << 7
-    if self.has_multi_hop:  byte |= 1 << 6
-    if self.origin_id_type:  byte |= 1 << 4
-    byte += self.nls_method
+    if self.has_hopping:  byte |= 1 << 6
+    byte |= self.origin_id_type.value << 4
+    byte += self.nls_method.value
     yield byte
\ No newline at end of file
-- 
2.43.0


From 8b25f6980d6858c5a91f86bcf3c0852629d7c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 22/36] fix: serialise the timeouts of a D7ATP frame as bytes,
 including Tc

---
 d7a/d7atp/frame.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/d7atp/frame.py b/d7a/d7atp/frame.py
index 4b1c367..4f96379 100644
--- a/d7a/d7atp/frame.py
+++ b/d7a/d7atp/frame.py
@@ -129,10 +129,13 @@ class Frame(Validatable):
       yield self.agc_rx_level_i
 
     if self.control.has_tl:
-      yield self.tl
+      for byte in self.tl: yield byte
 
     if self.control.has_te:
-      yield self.te
+      for byte in self.te: yield byte
+
+    if self.tc is not None:
+      for byte in self.tc: yield byte
 
     if self.control.is_ack_not_void:
       for byte in self.ack_template: yield byte
-- 
2.43.0


From 9a9ffddb25c6b451029a7eafc914f8ab4c3b027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 23/36] fix: serialise the 16 bit fields of DLL frames as two
 bytes

---
 d7a/dll/background_frame.py | 6 ++++--
 d7a/dll/foreground_frame.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index d36726f..f41b2c9 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -75,8 +75,10 @@ class BackgroundFrame(Validatable):
   def __iter__(self):
     yield self.subnet
     for byte in self.control: yield byte
-    for byte in self.payload: yield byte
-    yield self.crc16
+    yield self.payload >> 8
+    yield self.payload & 0xFF
+    yield self.crc16 >> 8
+    yield self.crc16 & 0xFF
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2efe957..df32f1e 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -92,7 +92,8 @@ class ForegroundFrame(Validatable):
     for byte in self.control: yield byte
     for byte in self.target_address: yield byte
     for byte in self.d7anp_frame: yield byte
-    yield self.crc16
+    yield self.crc16 >> 8
+    yield self.crc16 & 0xFF
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From 83ed5c0de432246807bb037d567f7775a36005d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 24/36] fix: parse length and subnet of DLL frames as unsigned

---
 d7a/dll/background_frame.py | 2 +-
 d7a/dll/foreground_frame.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index f41b2c9..3a6c1b4 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -59,7 +59,7 @@ class BackgroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    subnet = s.read("int:8")
+    subnet = s.read("uint:8")
     control = BackgroundFrameControl.parse(s)
     payload = s.read("uint:16")
     crc = s.read("uint:16")
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index df32f1e..811198a 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -63,8 +63,8 @@ class ForegroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    length = s.read("int:8")
-    subnet = s.read("int:8")
+    length = s.read("uint:8")
+    subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
     payload_length = length - 4 # substract subnet, control, crc
     if control.id_type == IdType.VID:
-- 
2.43.0


From 3189bf24e5aef6fbeeb814cbe8efc423efa6bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 25/36] fix: deliver unsolicited responses without a tag when
 no command is being executed

---
 modem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 32b2f5c..dc7fb94 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -61,6 +61,7 @@ class Modem:
     self.firmware_version = None
     self.skip_alp_parsing = skip_alp_parsing
     self._sync_execution_response_cmds = []
+    self._sync_execution_active = False
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
     self._unsolicited_responses_received = []
@@ -149,12 +150,14 @@ class Modem:
       timeout_seconds = 0
 
     data = self.parser.build_serial_frame(alp_command)
+    self._sync_execution_active = False
     self._sync_execution_response_cmds = []
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
     if(timeout_seconds > 0):
       assert self._sync_execution_tag_id is None
       self._sync_execution_tag_id = alp_command.tag_id
+      self._sync_execution_active = True
     with self.lock:
       self.dev.write(data)
       self.dev.flush()
@@ -218,7 +221,7 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and self._sync_execution_active and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
             self.log.info("Received response for sync execution")
             self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
-- 
2.43.0


From 9c1180c906578b5721bef610a4f32cf513d31ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:09 +0000
Subject: [PATCH 26/36] fix: responses arriving after a command completed or
 timed out are unsolicited, not lost

---
 modem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modem/modem.py b/modem/modem.py
index dc7fb94..6d33091 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -171,6 +171,7 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
+    self._sync_execution_active = False # responses received from now on are unsolicited
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
-- 
2.43.0


From e6ee5cf65e80303035ce080045b0b94c72a27516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 27/36] fix: sending a command asynchronously does not drop the
 response another command is waiting for

---
 modem/modem.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 6d33091..f3c3380 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -150,12 +150,10 @@ class Modem:
       timeout_seconds = 0
 
     data = self.parser.build_serial_frame(alp_command)
-    self._sync_execution_active = False
-    self._sync_execution_response_cmds = []
-    self._sync_execution_tag_id = None
-    self._sync_execution_completed = False
-    if(timeout_seconds > 0):
-      assert self._sync_execution_tag_id is None
+    if timeout_seconds > 0: # executing a command asynchronously does not affect one which is waiting for its response
+      self._sync_execution_active = False
+      self._sync_execution_response_cmds = []
+      self._sync_execution_completed = False
       self._sync_execution_tag_id = alp_command.tag_id
       self._sync_execution_active = True
     with self.lock:
-- 
2.43.0


From a1e933071bfe64de033ad70a6ac00874eb1d0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 28/36] fix: frames of commands sent by several threads go out
 in the order of their counter

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index f3c3380..4f492e7 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -149,7 +149,6 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    data = self.parser.build_serial_frame(alp_command)
     if timeout_seconds > 0: # executing a command asynchronously does not affect one which is waiting for its response
       self._sync_execution_active = False
       self._sync_execution_response_cmds = []
@@ -157,6 +156,7 @@ class Modem:
       self._sync_execution_tag_id = alp_command.tag_id
       self._sync_execution_active = True
     with self.lock:
+      data = self.parser.build_serial_frame(alp_command)
       self.dev.write(data)
       self.dev.flush()
     self.log.info("Sending command of size %s" % len(data))
-- 
2.43.0


From cf50286c2f9340c2439e2d224c32284a3eec6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 29/36] fix: guard the state of a synchronous execution, a late
 response could complete the next command

---
 modem/modem.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 4f492e7..392a98f 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -61,6 +61,7 @@ class Modem:
     self.firmware_version = None
     self.skip_alp_parsing = skip_alp_parsing
     self._sync_execution_response_cmds = []
+    self._sync_execution_lock = threading.Lock() # guards the state below, which is shared with the read thread
     self._sync_execution_active = False
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
@@ -150,11 +151,11 @@ class Modem:
       timeout_seconds = 0
 
     if timeout_seconds > 0: # executing a command asynchronously does not affect one which is waiting for its response
-      self._sync_execution_active = False
-      self._sync_execution_response_cmds = []
-      self._sync_execution_completed = False
-      self._sync_execution_tag_id = alp_command.tag_id
-      self._sync_execution_active = True
+      with self._sync_execution_lock:
+        self._sync_execution_response_cmds = []
+        self._sync_execution_completed = False
+        self._sync_execution_tag_id = alp_command.tag_id
+        self._sync_execution_active = True
     with self.lock:
       data = self.parser.build_serial_frame(alp_command)
       self.dev.write(data)
@@ -169,7 +170,9 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
-    self._sync_execution_active = False # responses received from now on are unsolicited
+    with self._sync_execution_lock:
+      self._sync_execution_active = False # responses received from now on are unsolicited
+
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
@@ -200,6 +203,22 @@ class Modem:
   def clear_rebooted_received(self):
     self._rebooted_received = []
 
+  # returns False when the command is not a response to the command which is being executed
+  def _process_sync_execution_response(self, cmd, message_type):
+    with self._sync_execution_lock:
+      if self.skip_alp_parsing or not self._sync_execution_active or message_type > MessageType.PING_RESPONSE:
+        return False
+      if not hasattr(cmd, 'tag_id') or self._sync_execution_tag_id != cmd.tag_id:
+        return False
+
+      self._sync_execution_response_cmds.append(cmd)
+      if cmd.execution_completed:
+        self.log.info("cmd with tag {} done".format(cmd.tag_id))
+        self._sync_execution_completed = True
+      else:
+        self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
+      return True
+
   def _read_async(self):
     self.log.info("starting read thread")
     data_received = bytearray()
@@ -220,15 +239,8 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and self._sync_execution_active and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if self._process_sync_execution_response(cmd, message_types[cmd_cnt]):
             self.log.info("Received response for sync execution")
-            self._sync_execution_response_cmds.append(cmd)
-            if cmd.execution_completed:
-              self.log.info("cmd with tag {} done".format(cmd.tag_id))
-              self._sync_execution_completed = True
-            else:
-              self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
-
           elif self.unsolicited_response_received_callback != None and self.connected and message_types[cmd_cnt] <= MessageType.PING_RESPONSE: # skip responses until connected
             self.unsolicited_response_received_callback(cmd)
           elif message_types[cmd_cnt] == MessageType.REBOOTED:
-- 
2.43.0


From ef29fb1c8e703ba3f3cf37701bdfef3a1071d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 30/36] fix: reconnect to the serial port instead of failing on
 a method which does not exist

---
 modem/modem.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 392a98f..72dd3f2 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -71,6 +71,11 @@ class Modem:
     self.unsolicited_response_received_callback = unsolicited_response_received_callback
     self.rebooted_callback = rebooted_callback
     self.connected = False
+    self._connect_serial_modem()
+
+    self.start_reading()
+
+  def _connect_serial_modem(self):
     self.dev = serial.Serial(
       port     = self.config["device"],
       baudrate = self.config["baudrate"],
@@ -86,7 +91,15 @@ class Modem:
 
     self.dev.flush() # ignore possible buffered data
 
-    self.start_reading()
+  def _reconnect_serial_modem(self):
+    self.dev.close()
+    while self._read_async_active:
+      time.sleep(5)
+      try:
+        self._connect_serial_modem()
+        return
+      except serial.SerialException as e:
+        self.log.warning("Failed to reconnect: {}".format(e))
 
   def connect(self, check_alive=True):
     if self.connected:
@@ -227,9 +240,8 @@ class Modem:
         data_received = self.dev.read()
       except serial.SerialException:
         self.log.warning("SerialException received, trying to reconnect")
-        self.dev.close()
-        time.sleep(5)
-        self._connect_serial_modem()
+        self._reconnect_serial_modem()
+        continue
 
       if len(data_received) > 0:
         # self.log.debug("< " + " ".join(map(lambda b: format(b, "02x"), bytearray(data_received))))
-- 
2.43.0


From 8deccbc7c3459695e4aacbc0a84f2241ba81b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 31/36] fix: connect reports success when the modem is
 connected already

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 72dd3f2..c6e9c78 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -103,7 +103,7 @@ class Modem:
 
   def connect(self, check_alive=True):
     if self.connected:
-      return
+      return True
 
     if not check_alive:
       self.connected = True
-- 
2.43.0


From d6001415ae7014f6a0e936555711b5e3744841b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 32/36] fix: compare file properties and channel headers by
 their fields

---
 d7a/fs/file_properties.py | 4 +++-
 d7a/phy/channel_header.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index 4e621eb..e28b3af 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -78,7 +78,9 @@ class FileProperties(Validatable):
 
   def __eq__(self, other):
     if isinstance(other, FileProperties):
-      return self.__dict__ == other.__dict__
+      # compare the fields, not the dictionaries: some interpreters order unequal dictionaries, which enum members do not support
+      return self.act_enabled == other.act_enabled and self.act_condition == other.act_condition \
+        and self.storage_class == other.storage_class
 
     return False
 
diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index 9e5b769..bbd8b7e 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -123,7 +123,9 @@ class ChannelHeader(Validatable):
 
   def __eq__(self, other):
     if type(other) is type(self):
-      return self.__dict__ == other.__dict__
+      # compare the fields, not the dictionaries: some interpreters order unequal dictionaries, which enum members do not support
+      return self.channel_coding == other.channel_coding and self.channel_class == other.channel_class \
+        and self.channel_band == other.channel_band
     return False
 
   def __ne__(self, other):
-- 
2.43.0


From 81ca869862bcfbfcb4432801c771fe58f8b94a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 33/36] fix: skip what a session status holds beyond the fields
 known, as its stated length says

---
 d7a/alp/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/alp/parser.py b/d7a/alp/parser.py
index 283f02e..c3def36 100644
--- a/d7a/alp/parser.py
+++ b/d7a/alp/parser.py
@@ -212,7 +212,10 @@ class Parser(object):
   def parse_alp_interface_status_d7asp(self, s, length):
     status = None
     if length > 0:
+      end = s.bytepos + length
       status = Status.parse(s)
+      if s.bytepos < end: # skip what follows the fields we know
+        s.read("bytes:" + str(end - s.bytepos))
 
     return InterfaceStatus(
       operand=InterfaceStatusOperand(interface_id=0xd7, interface_status=status)
-- 
2.43.0


From ee86d4d6607fe697941e2b1bdca2b98073a030af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 34/36] fix: connect the bridge to the broker before the modem,
 whose commands it can publish only then

---
 tools/modem2mqtt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/modem2mqtt.py b/tools/modem2mqtt.py
index 40553cd..781d0dd 100644
--- a/tools/modem2mqtt.py
+++ b/tools/modem2mqtt.py
@@ -62,9 +62,9 @@ class Modem2Mqtt():
     self.config = argparser.parse_args()
     configure_default_logger(self.config.verbose)
 
+    self.connect_to_mqtt() # before the modem: commands can be received as soon as this is connected
     self.modem = Modem(self.config.device, self.config.rate, self.on_command_received, skip_alp_parsing=True)
     self.modem.connect()
-    self.connect_to_mqtt()
 
 
   def connect_to_mqtt(self):
-- 
2.43.0


From bb6f6322e2b734ad8b4d41f826f97caabeade5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 35/36] fix: parse link layer frames with the parsing tool,
 whose parser returns no message types

---
 tools/parse_hexstring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/parse_hexstring.py b/tools/parse_hexstring.py
index e95ac94..fda6a9c 100644
--- a/tools/parse_hexstring.py
+++ b/tools/parse_hexstring.py
@@ -55,7 +55,10 @@ if args.type == "systemfile":
   print(file_type.parse(ConstBitStream(data)))
   exit(0)
 
-msgtype, cmds, info = parser.parse(data)
+if args.type == "serial":
+  msgtype, cmds, info = parser.parse(data)
+else:
+  cmds, info = parser.parse(data)
 for cmd in cmds:
   print cmd
 
-- 
2.43.0


From 42cd3e0272c18099e189a734e8c85dfa5c4a20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 36/36] fix: skip link layer frames which cannot be read
 instead of failing on them forever

---
 d7a/dll/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/parser.py b/d7a/dll/parser.py
index 3e6eee1..3a27f0a 100644
--- a/d7a/dll/parser.py
+++ b/d7a/dll/parser.py
@@ -82,13 +82,17 @@ class Parser(object):
         retry = False         # got one, carry on
       except ReadError as e:       # not enough to read, carry on and wait for more
         retry = False
-      except ParseError as e: # actual problem with current buffer, need to skip
+      except Exception as e: # actual problem with current frame, need to skip it
+        frame_length = 1 + self.buffer[0]
+        if len(self.buffer) < frame_length: # carry on and wait for the remainder
+          break
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else repr(e),
           "buffer"  : list(self.buffer),
           "pos"     : self.s.pos,
-          "skipped" : self.skip_bad_buffer_content()
+          "skipped" : frame_length
         })
+        self.shift_buffer(frame_length)
 
     info = {
       "parsed" : bits_parsed,
-- 
2.43.0

