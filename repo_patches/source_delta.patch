From 495a2b20dcc796248629d8343305b5a0bec678db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 01/12] fix: report the actual module type of generic analog
 input modules

---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From c6f49b9ba70a34aea998751ceee1205314866985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 02/12] fix: ignore surplus parameter registers of
 UR20-4AI-TC-DIAG

---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..1114deb 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(4)
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From c038d024a0d88899c69b7c625bac61d20b731a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 03/12] fix: parse the power feed category

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From b37a24a04e68bd363e25f03e906be8a70a55ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 04/12] fix: encode analog outputs with the nearest code

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From bf4699aec93587ec7d3911fbe48aed36c3dc781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 05/12] fix: report missing channel parameters of analog output
 modules

---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From 89df46f81e9f5bbabb7354f5b302084e6c56b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 06/12] fix: reject output offsets below the output area

---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..c235584 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -388,7 +388,7 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
-    let start = (start - addr) as usize;
+    let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
     let word_count = {
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
-- 
2.43.0


From 61a3060f5d31209daa8e394aaf3411c2e7af80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 07/12] fix: read all bytes of modules that start at a high
 byte

---
 src/ur20_fbc_mod_tcp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index c235584..15892a0 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -393,7 +393,13 @@ fn prepare_raw_data_to_process(
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
     };
-    let end = start + word_count;
+    // With more than one byte a module at a high byte ends in the register behind.
+    let register_count = if bit == 8 && byte_count > 1 {
+        word_count + 1
+    } else {
+        word_count
+    };
+    let end = start + register_count;
     if end > data.len() {
         return Err(Error::BufferLength);
     }
@@ -401,7 +407,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut shifted = shift_data(output);
+            shifted.truncate(word_count);
+            Ok(shifted)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
-- 
2.43.0


From 78807079d4e68ff58cb1afb787bd20b17727f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 08/12] fix: write all bytes of modules that start at a high
 byte

---
 src/ur20_fbc_mod_tcp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 15892a0..9f43a9d 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -448,10 +448,14 @@ pub fn process_output_values(
                         return Err(Error::ModuleOffset);
                     }
                     let shared_low_byte = out[start] & 0x00FF;
-                    let buf = u16_to_u8(&data);
-                    let shared_high_byte = u16::from(buf[0]) << 8;
-                    let word = shared_high_byte | shared_low_byte;
-                    out[start] = word;
+                    let mut buf = u16_to_u8(&data);
+                    buf.truncate(m.process_output_byte_count());
+                    if let Some((first, rest)) = buf.split_first() {
+                        let shared_high_byte = u16::from(*first) << 8;
+                        let word = shared_high_byte | shared_low_byte;
+                        out[start] = word;
+                        out.extend(u8_to_u16(rest));
+                    }
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From b602c5af2e21a44e390c900ce99238055199af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 09/12] fix: track the transmission counter of every serial
 module on its own

---
 src/ur20_fbc_mod_tcp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 9f43a9d..4a23f32 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter states of the statefull modules
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,11 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt = self.last_tx_cnt.entry(m_nr).or_insert(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != *last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
+                        *last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From e6bd605293c5050ef281ed79f5667de9388f84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 10/12] fix: keep the reported inputs if the output image is
 invalid

---
 src/ur20_fbc_mod_tcp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 4a23f32..9d70f36 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -255,8 +255,10 @@ impl Coupler {
             .zip(&self.offsets)
             .map(|(m, o)| (&**m, o))
             .collect();
-        self.in_values = process_input_data(&infos, process_input)?;
-        self.out_values = process_output_data(&infos, process_output)?;
+        let in_values = process_input_data(&infos, process_input)?;
+        let out_values = process_output_data(&infos, process_output)?;
+        self.in_values = in_values;
+        self.out_values = out_values;
 
         let mut next_out_values = self.out_values.clone();
         let mut in_bytes = HashMap::new();
-- 
2.43.0


From 95018f9717d13ae327d508b1148d1da97e289ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 11/12] fix: keep serial data and start-up state if a cycle
 can't be encoded

---
 src/ur20_fbc_mod_tcp.rs | 47 ++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 9d70f36..bbea9ef 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -257,10 +257,39 @@ impl Coupler {
             .collect();
         let in_values = process_input_data(&infos, process_input)?;
         let out_values = process_output_data(&infos, process_output)?;
+
+        let mut next_out_values = out_values.clone();
+
+        for (m_nr, (in_v, out_v)) in in_values.iter().zip(&out_values).enumerate() {
+            if let Some(p) = self.processors.get_mut(&m_nr) {
+                if let ChannelValue::ComRsIn(_) = in_v[0] {
+                    if let ChannelValue::ComRsOut(_) = out_v[0] {
+                        if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
+                            module: m_nr,
+                            channel: 0,
+                        }) {
+                            p.write_all(data)?;
+                        }
+                    }
+                }
+            } else {
+                for (i, _) in out_v.iter().enumerate() {
+                    if let Some(v) = self.write.remove(&Address {
+                        module: m_nr,
+                        channel: i,
+                    }) {
+                        next_out_values[m_nr][i] = v;
+                    }
+                }
+            }
+        }
+
+        // The message processors must not proceed with values that can't be sent.
+        process_output_values(&infos, &next_out_values)?;
+
         self.in_values = in_values;
         self.out_values = out_values;
 
-        let mut next_out_values = self.out_values.clone();
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
 
@@ -277,13 +306,6 @@ impl Coupler {
                         }
                         *last_tx_cnt = out_v.tx_cnt;
 
-                        if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
-                            module: m_nr,
-                            channel: 0,
-                        }) {
-                            p.write_all(data)?;
-                        }
-
                         let rs_out = p.next(in_v, out_v);
                         next_out_values[m_nr][0] = ChannelValue::ComRsOut(rs_out);
 
@@ -292,15 +314,6 @@ impl Coupler {
                         }
                     }
                 }
-            } else {
-                for (i, _) in out_v.iter().enumerate() {
-                    if let Some(v) = self.write.remove(&Address {
-                        module: m_nr,
-                        channel: i,
-                    }) {
-                        next_out_values[m_nr][i] = v;
-                    }
-                }
             }
         }
         for (m_nr, v) in in_bytes {
-- 
2.43.0


From 441a0d0e357a43e23e70f953c550ab9414739481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 12/12] fix: don't replace a serial segment before it is
 acknowledged

If the sequence numbers were out of step at start-up, the device could
acknowledge the old number after the first segment had been prepared. The
next cycle then took that segment as transmitted and replaced it.
---
 src/ur20_1com_232_485_422.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ur20_1com_232_485_422.rs b/src/ur20_1com_232_485_422.rs
index 9b11095..74abaaa 100644
--- a/src/ur20_1com_232_485_422.rs
+++ b/src/ur20_1com_232_485_422.rs
@@ -388,6 +388,8 @@ fn cnt_ack_to_status_byte(cnt: usize, mut byte: u8) -> u8 {
 pub struct MessageProcessor {
     init_state: InitState,
     last_rx_cnt: usize,
+    /// Sequence number of the transmitted segment that isn't acknowledged yet.
+    pending_tx_cnt: Option<usize>,
     in_data: Vec<u8>,
     out_data: Vec<Vec<u8>>,
     process_data_len: ProcessDataLength,
@@ -407,6 +409,7 @@ impl MessageProcessor {
         MessageProcessor {
             init_state: InitState::ClearBuffers,
             last_rx_cnt: 0,
+            pending_tx_cnt: None,
             in_data: vec![],
             out_data: vec![],
             process_data_len,
@@ -418,9 +421,16 @@ impl MessageProcessor {
     pub fn next(&mut self, input: &ProcessInput, output: &ProcessOutput) -> ProcessOutput {
         let mut out_msg = output.clone();
         if self.init_state == InitState::Done {
-            if !self.out_data.is_empty() && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {
+            if self.pending_tx_cnt == Some(input.tx_cnt_ack) {
+                self.pending_tx_cnt = None;
+            }
+            if !self.out_data.is_empty()
+                && self.pending_tx_cnt != Some(output.tx_cnt)
+                && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt
+            {
                 out_msg.tx_cnt = Self::inc_cnt(input.tx_cnt_ack);
                 out_msg.data = self.out_data.remove(0);
+                self.pending_tx_cnt = Some(out_msg.tx_cnt);
             }
             if input.data_available && self.last_rx_cnt != input.rx_cnt {
                 self.in_data.extend_from_slice(&input.data);
-- 
2.43.0

