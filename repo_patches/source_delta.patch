From 292ed834c4f46b22f9448c72d507f66e3bc828d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 01/86] fix: do not emit an empty unknown command when a stream
 starts with text

---
 thermal_parser/src/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..487fca2 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -163,12 +163,9 @@ impl Parser {
 
             if new_cmd.is_some() {
                 mem::swap(&mut self.current_command, &mut new_cmd);
-                if new_cmd.is_some() {
+                if let Some(previous_cmd) = new_cmd {
                     //new_command has become the previous command after the swap
-                    self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
+                    self.emit_command(previous_cmd);
                 }
                 return;
             }
-- 
2.43.0


From fb1a85480e2fbfa6d6ffad60aa449ccfbc384519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 02/86] fix: keep the prefix byte when a partial command match
 turns out to be text

---
 thermal_parser/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 487fca2..99c9ed1 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -148,12 +148,17 @@ impl Parser {
                 unknown_command.data = self.command_buffer.clone();
                 new_cmd = Some(unknown_command);
             } else if self.current_command_is_default {
+                //The whole buffer is text, including bytes that looked like a command prefix
                 if let Some(cmd) = &mut self.current_command {
-                    cmd.push(*byte);
+                    for buffered_byte in &self.command_buffer {
+                        cmd.push(*buffered_byte);
+                    }
                 }
             } else {
                 let mut default_command = self.cmd_set.default.clone();
-                default_command.push(*byte);
+                for buffered_byte in &self.command_buffer {
+                    default_command.push(*buffered_byte);
+                }
                 new_cmd = Some(default_command);
             }
 
-- 
2.43.0


From 76e2133ed8632aba5d886abff849d31bde7c91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 03/86] fix: keep the bytes of an incomplete command at the end
 of a stream

---
 thermal_parser/src/parser.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 99c9ed1..e4120a4 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -33,6 +33,21 @@ impl Parser {
             self.parse(byte);
         }
 
+        //The stream can end with an incomplete command, those bytes are
+        //collected like any other bytes that don't match a command
+        let mut incomplete_cmd = None;
+        if let Some(first) = self.command_buffer.first() {
+            if self.cmd_set.unknown.commands.contains(first) {
+                incomplete_cmd = Some(self.cmd_set.unknown.clone());
+            } else if !self.current_command_is_default {
+                incomplete_cmd = Some(self.cmd_set.default.clone());
+            }
+
+            if let Some(cmd) = incomplete_cmd.as_mut().or(self.current_command.as_mut()) {
+                cmd.data.extend(&self.command_buffer);
+            }
+        }
+
         //emit the last command and reset the parser
         let mut new_cmd = None;
         mem::swap(&mut self.current_command, &mut new_cmd); //new_cmd has become the previous command after the swap
@@ -41,6 +56,10 @@ impl Parser {
             self.emit_command(new_cmd_unwrapped);
         }
 
+        if let Some(incomplete_cmd) = incomplete_cmd {
+            self.emit_command(incomplete_cmd);
+        }
+
         self.emit_command(self.cmd_set.end_parsing.clone());
 
         self.match_depth = 0;
-- 
2.43.0


From b9878006e8d681bec01d09a5fdba779f92c35b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 04/86] fix: subcommands declaring less than two bytes no
 longer underflow

---
 thermal_parser/src/subcommands/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..5bf561e 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -54,7 +54,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +62,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
-- 
2.43.0


From 291aef16b7a3ad5c0faccda768a845262c42a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 05/86] fix: subcommands at the end of a stream keep their data

---
 thermal_parser/src/parser.rs          |  3 +++
 thermal_parser/src/subcommands/mod.rs | 34 ++++++++-------------------
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index e4120a4..c22a517 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -89,6 +89,9 @@ impl Parser {
 
                 subcommand.commands = Rc::new(expanded_cmds);
 
+                //Move the data into the subcommand
+                subcommand.data = mem::take(&mut command.data);
+
                 self.captured_commands.push(subcommand);
             }
         } else {
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 5bf561e..3fc677e 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -113,40 +113,26 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
         if !self.accept_data {
+            data.push(byte);
+
             // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
+            let meta_len = if self.is_large { 6 } else { 4 };
+
+            //The subcommand is known as soon as the metadata is complete
+            if data.len() == meta_len {
+                self.parse_meta(&data[0..meta_len]);
+                data.clear();
             }
-            data.clear();
-            data_len = 0;
+            return true;
         }
 
         //Accept data
-        if data_len < (self.capacity as usize) {
+        if data.len() < (self.capacity as usize) {
             data.push(byte);
             return true;
         }
 
-        //Move the data into the subcommand
-        if let Some(sub) = &mut self.subcommand {
-            mem::swap(&mut sub.data, data);
-        } else {
-            println!("Missing subcommand");
-        }
-
         //Stop accepting bytes
         false
     }
-- 
2.43.0


From 9985818faddf2f2cdb6185a8a31d637da290254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 06/86] fix: keep the metadata bytes of commands without
 subcommands

---
 thermal_parser/src/subcommands/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 3fc677e..1d56b9d 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -18,6 +18,7 @@ pub struct SubCommandHandler {
     capacity: u32,
     accept_data: bool,
     use_m: bool,
+    meta: Vec<u8>,
 }
 
 impl SubCommandHandler {
@@ -79,6 +80,7 @@ impl SubCommandHandler {
             sub.commands = Rc::new(data.to_vec());
         }
 
+        self.meta = data.to_vec();
         self.accept_data = true;
     }
 }
@@ -137,6 +139,13 @@ impl CommandHandler for SubCommandHandler {
         false
     }
 
+    //The metadata is not part of the data, it has to be added back
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        let mut data = self.meta.clone();
+        data.extend(&command.data);
+        (command.commands.to_vec(), data)
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
@@ -155,6 +164,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         capacity: 0,
         accept_data: false,
         use_m,
+        meta: vec![],
     })
 }
 
-- 
2.43.0


From d5195c0b3a340cd02b64f8ecebc2b3d528f8ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 07/86] fix: report unsupported subcommands as unknown commands
 instead of dropping them

---
 thermal_parser/src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index c22a517..e8da88f 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -93,6 +93,14 @@ impl Parser {
                 subcommand.data = mem::take(&mut command.data);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //An unsupported subcommand is an unknown command
+                let (mut bytes, data) = command.handler.get_command_bytes(command);
+                bytes.extend(data);
+
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data = bytes;
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
-- 
2.43.0


From 7df68b762b6e3daa67354f699dfc7791e9d8b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 08/86] fix: datamatrix set width is function 54 67, it
 shadowed composite set width

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From 3101169c0b7c5607566a62b49fa4a67eeea486a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 09/86] fix: NUL terminated barcodes ending the stream keep the
 terminator out of the data

---
 thermal_parser/src/commands/barcode.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..c0b9c24 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -51,6 +51,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -279,7 +280,7 @@ impl CommandHandler for BarcodeHandler {
         params.extend(self.raw_params.clone());
         let mut data = command.data.to_vec();
 
-        if self.encoding == EncodingFunction::NulTerminated {
+        if self.terminated {
             data.push(NUL);
         }
 
@@ -331,11 +332,15 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
-                data.push(byte);
+                //The terminator is accepted, but it is not part of the data
+                if byte == NUL {
+                    self.terminated = true;
+                } else {
+                    data.push(byte);
+                }
                 true
             }
             EncodingFunction::ExplicitSize => {
@@ -368,6 +373,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From 13525777a764461189c81f76209076d0fa5e45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 10/86] fix: PDF417 correction level no longer underflows on
 short data or low m

---
 .../src/subcommands/gs_code2d/pdf417_set_correction_level.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..b6ec50c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,8 +8,8 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = m.saturating_sub(48);
 
         //Ratio based error correction
         if m == 49 {
-- 
2.43.0


From 6ef1bb42243ac26f360671051b74ac33354dd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 11/86] fix: datamatrix options no longer overflow on large
 dimensions

---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..e9fafc0 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,7 +15,7 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
-- 
2.43.0


From 78b6d4f04f5402f31fc2b5d9e3daab1ab2c2c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 12/86] fix: QR error correction levels are selected by 48 to
 51

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From 31f68e6f833a04d50603deffd682f9f72968390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 13/86] fix: the m parameter is not part of the stored QR data

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..847cdce 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -34,7 +34,8 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
+        //The first byte is the parameter m, it is not part of the symbol data
+        let data = command.data.get(1..).unwrap_or_default();
         
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
-- 
2.43.0


From 6435296bfe0dc85c98c3028620e99f6f661e38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 14/86] fix: a QR symbol that cannot be encoded replaces the
 previous symbol

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 847cdce..d0798e7 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -82,6 +82,8 @@ impl CommandHandler for Handler {
                 context.code2d.symbol_storage = Some(qrcode);
             }
             Err(e) => {
+                //Printing a previously stored symbol would be wrong
+                context.code2d.symbol_storage = None;
                 println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
             }
         }
-- 
2.43.0


From 075a939e22543b37619c0d42722db358b8aa657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 15/86] fix: QR symbols grow to fit their error correction
 level

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index d0798e7..aafbd8b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -45,14 +45,11 @@ impl CommandHandler for Handler {
         };
         
         //Minimum number of modules required to encode the binary length
-        let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
-        
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
+        let min_modules = match &context.code2d.qr_model {
+            Micro => 1,
+            _ => minimum_version_for_bytes(data.len() as i16, max_modules),
         };
-
+        
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
             QrErrorCorrection::Q => EcLevel::Q,
@@ -60,7 +57,23 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        let with_modules = |modules: i16| {
+            let version = match &context.code2d.qr_model {
+                QrModel::Model1 => Version::Normal(modules),
+                QrModel::Model2 => Version::Normal(modules),
+                Micro => Version::Micro(modules),
+            };
+            QrCode::with_version(data, version, error_correction)
+        };
+
+        //Error correction can require more modules than the minimum
+        let mut result = with_modules(min_modules);
+        for modules in min_modules + 1..=max_modules {
+            if result.is_ok() {
+                break;
+            }
+            result = with_modules(modules);
+        }
 
         match result {
             Ok(qr) => {
-- 
2.43.0


From 79e1b9b574072eb3ba22935a06cf59dbe2236900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 16/86] fix: a quoted string following a token no longer drops
 that token

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..c47d642 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -155,6 +155,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
 
         //Start gobbling quoted string
         if c == '"' {
+            //A quote also ends the token before it
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1])
+            }
+
             gobble_quoted = true;
             esc_quoted = false;
 
-- 
2.43.0


From 689e14422f86b67549b11298a2ca5d3e0c482ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 17/86] fix: horizontal tabs and carriage returns are written
 to the thermal format

---
 thermal_parser/src/thermal_file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index c47d642..7f44486 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -219,6 +219,11 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return "LF \n".to_string();
         }
 
+        //Other text commands, HT and CR, are not part of the text data
+        if commands.len() > 0 {
+            return format!("{}\n", explain_command(&commands));
+        }
+
         let text = String::from_utf8_lossy(data.as_slice());
         return format!("\"{}\"\n", text);
     } else if cmd.kind == CommandType::Unknown {
@@ -265,6 +270,7 @@ pub fn try_const(byte: &u8) -> String {
         0x1C => "FS".to_string(),
         0x0C => "FF".to_string(),
         0x00 => "NUL".to_string(),
+        0x09 => "HT".to_string(),
         0x0D => "CR".to_string(),
         0x10 => "DLE".to_string(),
         0x18 => "CAN".to_string(),
-- 
2.43.0


From a8bdd170c9b046304d52d5d618e9bd9bacad86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 18/86] fix: text is escaped when written to the thermal format

---
 thermal_parser/src/thermal_file.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index 7f44486..c0f618f 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -224,8 +224,7 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return format!("{}\n", explain_command(&commands));
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        return format!("{}\n", explain_text(&data));
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
@@ -301,6 +300,28 @@ pub fn try_string(byte: &u8) -> String {
     }
 }
 
+/// Readable text is quoted and escaped, anything else is written as hex bytes
+fn explain_text(data: &Vec<u8>) -> String {
+    let mut parts: Vec<String> = vec![];
+
+    for chunk in data.utf8_chunks() {
+        for span in chunk.valid().split_inclusive(|c: char| c.is_control()) {
+            let text = span.trim_end_matches(|c: char| c.is_control());
+            if !text.is_empty() {
+                parts.push(format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\"")));
+            }
+            for b in span[text.len()..].bytes() {
+                parts.push(try_const(&b));
+            }
+        }
+        for b in chunk.invalid() {
+            parts.push(try_const(b));
+        }
+    }
+
+    parts.join(" ")
+}
+
 fn explain_unknown(data: &Vec<u8>) -> String {
     if data.len() > 1 {
         let first = &data[0];
-- 
2.43.0


From f3b9ac4d12d4fae69132c527e02929740d56ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 19/86] fix: reverse feeding lines moves up instead of
 overflowing

---
 thermal_parser/src/context.rs    | 13 +++++++++++++
 thermal_renderer/src/renderer.rs |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..af4bf4d 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -713,6 +713,19 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    //Moves back up, stopping at the top
+    pub fn reverse_newline(&mut self, count: u32) {
+        let distance = self.text.line_spacing as u32 * count;
+        self.reset_x();
+        if self.page_mode.enabled {
+            let y = &mut self.page_mode.render_area.y;
+            *y = y.saturating_sub(distance);
+        } else {
+            let y = &mut self.graphics.render_area.y;
+            *y = y.saturating_sub(distance);
+        }
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..2a715a1 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -254,6 +254,9 @@ impl<'a, Output> Renderer<'a, Output> {
                         let output = self.renderer.end_render(&mut self.context);
                         self.output_buffer.push(output);
                     }
+                    DeviceCommand::FeedLine(num_lines) if *num_lines < 0 => {
+                        self.context.reverse_newline(num_lines.unsigned_abs() as u32);
+                    }
                     DeviceCommand::FeedLine(num_lines) => {
                         self.context.newline(*num_lines as u32);
                     }
-- 
2.43.0


From 223bee23a2d42038523039b724d6f2d54f3b6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 20/86] fix: motion units finer than a dot no longer cause a
 division by zero

---
 thermal_parser/src/commands/set_motion_units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..2d298dc 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,8 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).max(1);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).max(1);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
-- 
2.43.0


From 8e59975d72c101b0a0461d6813fa5f32057bbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 21/86] fix: ESC ! selects underline with bit 7

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From e36ea2fdd84951d1c4524c43f83d1cc248075a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 22/86] fix: initialize leaves page mode

---
 thermal_parser/src/context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index af4bf4d..7d3e271 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -584,6 +584,7 @@ impl Context {
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
             self.graphics = default.graphics.clone();
+            self.page_mode = default.page_mode.clone();
         }
     }
 
-- 
2.43.0


From 3281203c9c2758a132319acde2be78f4dfed75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 23/86] fix: absolute x in top to bottom direction is relative
 to the print area

---
 thermal_parser/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 7d3e271..7e19fa3 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -303,7 +303,7 @@ impl PageModeContext {
         match self.direction {
             PrintDirection::TopLeft2Right => r.x = p.x + x, //g
             PrintDirection::BottomRight2Left => r.x = (p.x + r.w).saturating_sub(x), //g
-            PrintDirection::TopRight2Bottom => r.y = r.h.saturating_sub(x), //?
+            PrintDirection::TopRight2Bottom => r.y = p.y + r.h.saturating_sub(x),
             PrintDirection::BottomLeft2Top => r.y = p.y + x, //g
         }
     }
-- 
2.43.0


From ed2ab0cbc6eb3128d61ee8f98f3916c5fbb6c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 24/86] fix: the print area keeps its place on the page in
 every print direction

---
 thermal_parser/src/context.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 7e19fa3..dfe7f4a 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -263,6 +263,18 @@ impl PageModeContext {
             mem::swap(&mut self.page_area.w, &mut self.page_area.h);
         }
 
+        //Grow the page so the logical area fits, before it is placed on the page
+        let extent_w = self.logical_area.x + self.logical_area.w;
+        let extent_h = self.logical_area.y + self.logical_area.h;
+        let (extent_w, extent_h) = if should_swap {
+            (extent_h, extent_w)
+        } else {
+            (extent_w, extent_h)
+        };
+
+        self.page_area.w = self.page_area.w.max(extent_w);
+        self.page_area.h = self.page_area.h.max(extent_h);
+
         //Translate logical area to render area
         match self.direction {
             PrintDirection::TopLeft2Right => self.translate_top_left_to_right(),
@@ -275,12 +287,6 @@ impl PageModeContext {
         self.page_area.x = self.render_area.x;
         self.page_area.y = self.render_area.y;
 
-        let render_max_width = self.render_area.x + self.render_area.w;
-        let render_max_height = self.render_area.y + self.render_area.h;
-
-        self.page_area.w = render_max_width.max(self.page_area.w);
-        self.page_area.h = render_max_height.max(self.page_area.h);
-
         (rotation, self.page_area.w, self.page_area.h)
     }
 
@@ -368,7 +374,7 @@ impl PageModeContext {
 
         r.w = l.w;
         r.h = l.h;
-        r.y = l.y;
+        r.y = p.h.saturating_sub(l.y + l.h);
         r.x = p.w.saturating_sub(l.x + l.w);
     }
 
@@ -379,7 +385,7 @@ impl PageModeContext {
 
         r.w = l.h;
         r.h = l.w;
-        r.x = p.w.saturating_sub(l.y + l.h);
+        r.x = l.y;
         r.y = p.h.saturating_sub(l.x + l.w);
     }
 
-- 
2.43.0


From 70e23262ca975a8b79d4d23d004d1c5ec4f84bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 25/86] fix: a new page does not keep the area and direction of
 the page before

---
 thermal_renderer/src/renderer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 2a715a1..3f5b85e 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -267,6 +267,10 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.context.newline(2);
                     }
                     DeviceCommand::BeginPageMode => {
+                        //Every page starts with its own areas and direction
+                        if let Some(default) = &self.context.default {
+                            self.context.page_mode = default.page_mode.clone();
+                        }
                         self.context.page_mode.enabled = true;
                         self.renderer.page_begin(&mut self.context);
                     }
-- 
2.43.0


From 8d8d555540bc4d21a59b9b367ca35659f415456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 26/86] fix: printing a page in a vertical print direction
 advances by the page height

---
 thermal_parser/src/context.rs    | 9 +++++++++
 thermal_renderer/src/renderer.rs | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index dfe7f4a..e23f724 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -350,6 +350,15 @@ impl PageModeContext {
         self.render_area.y = new_y as u32;
     }
 
+    //Height of the page on the paper, in the standard direction
+    pub fn get_paper_height(&self) -> u32 {
+        if PageModeContext::should_dimension_swap(&self.direction) {
+            self.page_area.w
+        } else {
+            self.page_area.h
+        }
+    }
+
     fn should_dimension_swap(direction: &PrintDirection) -> bool {
         match direction {
             PrintDirection::TopLeft2Right | PrintDirection::BottomRight2Left => false,
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 3f5b85e..b12e827 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -282,7 +282,8 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y += self.context.page_mode.page_area.h;
+                        self.context.graphics.render_area.y +=
+                            self.context.page_mode.get_paper_height();
                         self.context.graphics.render_area.x = 0;
                     }
                     DeviceCommand::ChangePageArea => {
-- 
2.43.0


From f48454914d213e9ee3f755a6e6387581e31904e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 27/86] fix: composed page content stays in place when the page
 grows

---
 thermal_renderer/src/html_renderer/mod.rs     |  9 +---
 thermal_renderer/src/image_renderer/mod.rs    |  9 +---
 .../src/image_renderer/thermal_image.rs       | 48 ++++++++++++++++++-
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..0316424 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -127,7 +127,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -141,12 +141,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height)
-        }
+        img.grow_page(&context.page_mode, width, height);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..76d1182 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -90,7 +90,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -104,12 +104,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height);
-        }
+        img.grow_page(&context.page_mode, width, height);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..cab6a5f 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -4,7 +4,7 @@ extern crate png;
 use crate::renderer::DebugProfile;
 use fontdue::layout::CharacterData;
 use std::rc::Rc;
-use thermal_parser::context::Font;
+use thermal_parser::context::{Font, PageModeContext, PrintDirection, Rotation};
 use thermal_parser::graphics::{Image, Rectangle, RGBA};
 use thermal_parser::text::TextSpan;
 
@@ -171,6 +171,33 @@ impl ThermalImage {
         self.width = h as u32;
     }
 
+    pub fn rotate(&mut self, rotation: &Rotation) {
+        match rotation {
+            Rotation::R90 => self.rotate_90(),
+            Rotation::R180 => self.rotate_180(),
+            Rotation::R270 => self.rotate_270(),
+            _ => {}
+        }
+    }
+
+    /// Grows a page that is rotated to a print direction.
+    /// A page always grows to the right and to the bottom of
+    /// the standard direction, composed content stays in place.
+    pub fn grow_page(&mut self, page: &PageModeContext, width: u32, height: u32) {
+        let standard = PrintDirection::TopLeft2Right;
+        let to_standard = page.calculate_directional_rotation(&page.direction, &standard);
+        let from_standard = page.calculate_directional_rotation(&standard, &page.direction);
+        let (width, height) = match to_standard {
+            Rotation::R90 | Rotation::R270 => (height, width),
+            _ => (width, height),
+        };
+
+        self.rotate(&to_standard);
+        self.expand_right(width);
+        self.expand_to_height(height);
+        self.rotate(&from_standard);
+    }
+
     //Setting the width clears any bytes
     pub fn set_width(&mut self, width: u32) {
         self.width = width;
@@ -668,6 +695,25 @@ impl ThermalImage {
         self.width = new_width;
     }
 
+    // Expands the right side, keeping the existing pixels in place
+    pub fn expand_right(&mut self, new_width: u32) {
+        let old_width = self.width as usize;
+        if new_width as usize <= old_width {
+            return;
+        };
+
+        let mut bytes = vec![self.paper_color; new_width as usize * self.get_height() as usize];
+        if old_width > 0 {
+            let rows = bytes.chunks_mut(new_width as usize);
+            for (row, old_row) in rows.zip(self.bytes.chunks(old_width)) {
+                row[..old_width].copy_from_slice(old_row);
+            }
+        }
+
+        self.bytes = bytes;
+        self.width = new_width;
+    }
+
     pub fn consume_rgb_u8(&mut self) -> (u32, u32, Vec<u8>) {
         let w = self.width;
         let h = self.get_height();
-- 
2.43.0


From 27e02176e19e60914abc3c931019b2da8238e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 28/86] fix: page areas are clipped to the printable width as
 documented

---
 thermal_parser/src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index e23f724..89f4d3a 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -813,6 +813,10 @@ impl Context {
             .h
             .saturating_div(self.graphics.v_motion_unit as u32);
 
+        //Areas beyond the physical print area are clipped
+        adj_area.x = adj_area.x.min(self.graphics.render_area.w);
+        adj_area.w = adj_area.w.min(self.graphics.render_area.w - adj_area.x);
+
         self.page_mode.logical_area = adj_area;
     }
 
-- 
2.43.0


From 166613a80b67138a283184e4ab3e8f855b572526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 29/86] fix: images taller than a fixed canvas are cropped by
 their own height

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index cab6a5f..9cc92b6 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -553,7 +553,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From d92a313d62c2326cef5da0a114dfa76923839877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 30/86] fix: upside down content does not grow a fixed canvas

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 9cc92b6..48110d2 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -451,6 +451,11 @@ impl ThermalImage {
             return;
         };
 
+        //A fixed canvas can't grow to fit the pixels
+        if !self.auto_grow && y + height > self.get_height() {
+            return;
+        };
+
         self.expand_to_height(y + height);
 
         // Vector to store rows
-- 
2.43.0


From ef74697e6e76447d15f09fb61242f06ebeba6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 31/86] fix: pixel data shorter than its dimensions is an error
 instead of a panic

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 48110d2..559f03e 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -532,7 +532,7 @@ impl ThermalImage {
         let mut cur_y = y;
 
         //Bad pixel data
-        if width * height < pixels.len() as u32 {
+        if width as usize * height as usize != pixels.len() {
             self.errors
                 .push("Bad pixel data, not enough bytes".to_string());
             return false;
-- 
2.43.0


From 38fcb0e824ce1cec70ee7fdb82a8b5d25f29f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 32/86] fix: debug borders of empty images no longer underflow

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 559f03e..6965589 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -214,6 +214,10 @@ impl ThermalImage {
     }
 
     pub fn draw_border(bytes: &mut Vec<RGBA>, width: u32, height: u32, color: &RGBA) {
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let bot_left = ((height - 1) * width) as usize;
 
         // Top and bottom border
-- 
2.43.0


From f81c82d4ac3a1729d6192b3bbc35fb04d5f8cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 33/86] fix: with_alpha keeps the blue channel

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From ea885943ff4427f20bca522e1774b6ec0289f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 34/86] fix: barcode data with multi byte characters no longer
 splits them

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index c0b9c24..45d98e9 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -190,7 +190,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
+                let data_sp = data.get(..12).unwrap_or(data);
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From bf39e03d8995fc95872c7674b877ad95492110cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 35/86] fix: UPC-A barcodes are EAN-13 barcodes with a leading
 zero

---
 thermal_parser/src/commands/barcode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 45d98e9..85d363f 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -203,7 +203,9 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //UPC A is an EAN 13 that starts with a zero, the check digit is calculated
+                let data_sp = format!("0{}", data.get(..11).unwrap_or(data));
+                return match UPCA::new(data_sp) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From cd6dfcc2daa71ba89ea72c7fca22cc48f3794646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 36/86] fix: only the asterisks surrounding CODE 39 data are
 removed

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 85d363f..120d0b7 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -164,7 +164,7 @@ impl CommandHandler for BarcodeHandler {
                 //it was provided.
                 //Code39 doesn't want asterisks in the data
                 let text = data.to_string();
-                let data = text.replace("*", "");
+                let data = text.trim_matches('*');
 
                 return match Code39::new(data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From 4927a9539154316ed8242d876a85a822e5e696f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 37/86] fix: Code128 data outside of ASCII is an error instead
 of a code set change

---
 thermal_parser/src/commands/barcode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 120d0b7..fb13f73 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -127,6 +127,11 @@ impl CommandHandler for BarcodeHandler {
 
         match self.kind {
             BarcodeType::Code128 => {
+                //The barcoders format uses non ASCII characters to change code sets
+                if !data.is_ascii() {
+                    return self.decorate_error("Invalid characters".to_string(), command);
+                }
+
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
                 let adjusted_data = data
                     .replace("{A", "À")
-- 
2.43.0


From 84f5ba9c21dbd0de471f9bf8901d0722570358b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 38/86] fix: Codabar data without start and stop characters is
 an error

---
 thermal_parser/src/commands/barcode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index fb13f73..3fc6f7e 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -152,6 +152,13 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Nw7Codabar => {
+                //The start and stop characters are the only ones from A to D
+                let guards: Vec<usize> =
+                    data.match_indices(['A', 'B', 'C', 'D']).map(|(i, _)| i).collect();
+                if guards != [0, data.len() - 1] {
+                    return self.decorate_error("Invalid start or stop".to_string(), command);
+                }
+
                 return match Codabar::new(data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From 36b03ad373a9cbb2a7f4cda44247c700e70c529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 39/86] fix: UPC-A data that can not be compressed to UPC-E is
 an error

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..6de5732 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,9 +199,9 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
-                    "Invalid UPCA: Product code can not be greater than 00999.",
+                    "Invalid UPCA: Product code can not be greater than 00099.",
                 ));
             }
 
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From 1e5e238085b4822e344ab3fecfa14a4851891f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 40/86] fix: UPC-E data with a wrong check digit is an error

---
 thermal_parser/src/utils/barcodes/upce.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index 6de5732..99cf5f6 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -158,6 +158,10 @@ impl UPCE {
             ));
         }
 
+        if calculate_checkdigit(&upc_a[..11]) != upc_a[11] {
+            return Err(String::from("Invalid UPCA: The check digit is wrong."));
+        }
+
         //Number system
         let nsys = upc_a[0];
 
-- 
2.43.0


From c393958b24ac6a81d0fe27ace9dcae407c1e1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 41/86] fix: image dimensions are multiplied without
 overflowing

---
 thermal_parser/src/graphics.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..9f47147 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -246,10 +246,10 @@ impl GraphicsCommand {
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        if unpacked.len() != width as usize * height as usize {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                width as usize * height as usize,
                 unpacked.len()
             ));
         }
@@ -462,17 +462,17 @@ pub fn scale_pixels(
     let new_width = original_width * scale_x as u32;
     let new_height = original_height * scale_y as u32;
 
-    let mut scaled_bytes = vec![0u8; (new_width * new_height) as usize];
+    let mut scaled_bytes = vec![0u8; new_width as usize * new_height as usize];
 
     for y in 0..original_height {
         for x in 0..original_width {
-            let pixel = bytes[(y * original_width + x) as usize];
+            let pixel = bytes[y as usize * original_width as usize + x as usize];
 
             for dy in 0..scale_y {
                 for dx in 0..scale_x {
                     let new_x = x * scale_x as u32 + dx as u32;
                     let new_y = y * scale_y as u32 + dy as u32;
-                    scaled_bytes[(new_y * new_width + new_x) as usize] = pixel;
+                    scaled_bytes[new_y as usize * new_width as usize + new_x as usize] = pixel;
                 }
             }
         }
-- 
2.43.0


From 2441bcfe0921e5c9cb47a1e88e64b0c1e1c2f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 42/86] fix: short column data is an error instead of a panic

---
 thermal_parser/src/graphics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 9f47147..c109011 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -411,6 +411,12 @@ fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
 /// done on the unpacked bytes to get the image in the correct orientation.
 fn column_to_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
     let unpacked = unpack_bytes(pixels, height, width);
+
+    //Without all of the dots there is nothing to rotate
+    if unpacked.len() != width as usize * height as usize {
+        return unpacked;
+    }
+
     let rot = rotate_90_clockwise(unpacked, height, width);
     flip_right_to_left(rot, width, height)
 }
-- 
2.43.0


From b60fcbcaac5eb44d3ac98a74354720b30cdd8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 43/86] fix: color layers of images with padded rows are split
 correctly

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c109011..5dc4fbc 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -296,7 +296,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            (((width + 7) / 8) as usize * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
-- 
2.43.0


From 294d4fca4754b6ddd00c9ce90e0418079e2e9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 44/86] fix: image layers of different sizes are not merged

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 5dc4fbc..1bbdc84 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -361,7 +361,7 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 
     //For the moment, we only merge if all images have the same width and height
     for merge_img in layers.iter().skip(1) {
-        if merge_img.w > image.w || merge_img.h > image.h {
+        if merge_img.w != image.w || merge_img.h != image.h {
             return Err("Can't merge image layers with different w and h".into());
         }
 
-- 
2.43.0


From f99a673b6189bc3fbf7cc8f01d401a65783b8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 45/86] fix: multi color column images are split into their
 layers

---
 thermal_parser/src/graphics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 1bbdc84..d61d9b5 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -191,20 +191,20 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        let bytes_per_layer = (width as usize * ((height as usize + 7) / 8)) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
+        if data.len() != bytes_per_layer * num_colors as usize {
             return GraphicsCommand::Error("Not enough data to parse raster image".into());
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
+        for layer in 0..num_colors as usize {
             let layer_start = layer * bytes_per_layer;
             let color_number = data[layer_start];
             let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
+            let image_data = &data[layer_start + 1..layer_start + bytes_per_layer];
             let raster = column_to_bytes(image_data, width, height);
             let layer = Self::image_from_raster_bytes_single_color(
                 width, height, stretch, color, flow, &raster, false,
-- 
2.43.0


From 93c7e6c3c6b0c0ac6bb79711a8b777a45f5b35bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 46/86] fix: column graphics without all parameters are ignored
 like raster graphics

---
 .../subcommands/gs_graphics/define_download_graphics_column.rs   | 1 +
 .../src/subcommands/gs_graphics/define_nv_graphics_column.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..40b6b61 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..ebf7478 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
-- 
2.43.0


From 5b3e9abdbbb9c757f87491daa0c21b7ca9fa160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 47/86] fix: column graphics are decoded as columns

---
 .../subcommands/gs_graphics/define_download_graphics_column.rs | 3 +--
 .../src/subcommands/gs_graphics/define_nv_graphics_column.rs   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 40b6b61..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -30,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index ebf7478..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -30,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From ebf85a75e5f565b7e44f26e3e5331a78a0695e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 48/86] fix: buffer graphics without all parameters are an
 error instead of a panic

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From 5ccbd8266c72291a8d7705fbacc6eb3495e7b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 49/86] fix: raster bit images are quadrupled by m 51

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From 1a64c4c3439dcad58e21df8d79a9ba567efcfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 50/86] fix: 2D code modules beyond the print area keep the
 others in place

---
 thermal_renderer/src/renderer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index b12e827..79eef0f 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -328,6 +328,8 @@ impl<'a, Output> Renderer<'a, Output> {
             if *p > 0 {
                 //Prevent rendering outside of print area
                 if context.get_available_width() < code_2d.point_width as u32 {
+                    context.offset_x(code_2d.point_width as u32);
+                    i += 1;
                     continue;
                 }
 
-- 
2.43.0


From 2d395dbf7ef8373ab8960834fff03e2ada8b3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 51/86] fix: printing a 2D code advances below its last row

---
 thermal_renderer/src/renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 79eef0f..c1a0c59 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -345,6 +345,7 @@ impl<'a, Output> Renderer<'a, Output> {
         }
 
         context.reset_x();
+        context.offset_y(code_2d.point_height as u32);
 
         self.renderer.render_graphics(context, &graphics);
     }
-- 
2.43.0


From 1e083953f98c6653f8efe777cc56f8bf7b057613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 52/86] fix: long words are split by the characters that fit
 into a line

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index c1a0c59..3d8313f 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -505,7 +505,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From 53e47556f6074d541a01989e7c743262d468b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 53/86] fix: tabs move to the next stop of the print area

---
 thermal_renderer/src/renderer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 3d8313f..b63f275 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -483,14 +483,15 @@ impl<'a, Output> Renderer<'a, Output> {
 
             //Tabs have a special behavior
             if word.text.eq("\t") {
-                let current_x = self.context.get_x();
+                let base_x = self.context.get_base_x();
+                let current_x = self.context.get_x().saturating_sub(base_x);
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    current_tab_pos += *tab_len as u32 * word.character_width;
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-                    current_tab_pos += *tab_len as u32 * word.character_width;
                 }
                 continue;
             }
-- 
2.43.0


From 62acda15320d4e4ce0335f46b4c1efa5043b9f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 54/86] fix: tab stops are not changed for text received before

---
 thermal_parser/src/commands/set_tab_len.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/set_tab_len.rs b/thermal_parser/src/commands/set_tab_len.rs
index b9a591b..3f80f8e 100644
--- a/thermal_parser/src/commands/set_tab_len.rs
+++ b/thermal_parser/src/commands/set_tab_len.rs
@@ -27,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Set Tab Len",
         vec![ESC, 'D' as u8],
-        CommandType::TextStyle,
+        CommandType::Control,
         DataType::Double,
         Box::new(Handler {}),
     )
-- 
2.43.0


From 106363330a1b0a07f0f15a08f20b545a83d35cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 55/86] fix: carriage returns do not occupy a character cell

---
 thermal_parser/src/commands/carriage_return.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/carriage_return.rs b/thermal_parser/src/commands/carriage_return.rs
index 58067a4..9cdb5d3 100644
--- a/thermal_parser/src/commands/carriage_return.rs
+++ b/thermal_parser/src/commands/carriage_return.rs
@@ -5,8 +5,9 @@ use crate::{command::*, constants::*, context::*};
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_text(&self, _command: &Command, context: &Context) -> Option<TextSpan> {
-        Some(TextSpan::new("\r".to_string(), context))
+    //Lines only end with a line feed
+    fn get_text(&self, _command: &Command, _context: &Context) -> Option<TextSpan> {
+        None
     }
 }
 
-- 
2.43.0


From 3489699bde169e55ee53f0c881ece548d846172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 56/86] fix: justified lines with tabs stay within the print
 area

---
 thermal_renderer/src/renderer.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index b63f275..87a0930 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -560,21 +560,30 @@ impl<'a, Output> Renderer<'a, Output> {
 
             let max_width = self.context.get_width();
             let mut max_height = 0;
-            let mut line_width = 0;
+            let mut line_start = u32::MAX;
+            let mut line_end = 0;
             let mut line_offset = 0;
 
             for span in line {
-                line_width += span.get_width();
+                if let Some(d) = &span.dimensions {
+                    line_start = line_start.min(d.x);
+                    line_end = line_end.max(d.x + d.w);
+                }
                 max_height = max_height.max(span.character_height);
             }
 
+            //Tabs are part of the line, nothing can move beyond the available space
+            let line_width = line_end.saturating_sub(line_start);
+            let available =
+                max_width.saturating_sub(line_end.saturating_sub(self.context.get_base_x()));
+
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = available;
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-                        line_offset = (max_width - line_width) / 2;
+                        line_offset = ((max_width - line_width) / 2).min(available);
                     }
                 }
                 _ => {}
-- 
2.43.0


From e0c4dcb0d5b4b39cd02cfc5705569581a8273666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 57/86] fix: unknown commands do not break the line of text
 around them

---
 thermal_renderer/src/renderer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 87a0930..ef07e22 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -146,7 +146,6 @@ impl<'a, Output> Renderer<'a, Output> {
     fn process_command(&mut self, command: &Command) {
         match command.kind {
             CommandType::Unknown => {
-                self.process_text();
                 self.log_error(
                     RenderErrorKind::UnknownCommand,
                     command.handler.debug(command, &self.context),
-- 
2.43.0


From 9fc993764896ddef2cbd69d8ddceaef7b97c2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 58/86] fix: graphics that can not be printed do not break the
 line of text around them

---
 thermal_renderer/src/renderer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index ef07e22..365e336 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -158,10 +158,13 @@ impl<'a, Output> Renderer<'a, Output> {
                 }
             }
             CommandType::Graphics => {
-                self.process_text();
-
                 let maybe_gfx = command.handler.get_graphics(command, &mut self.context);
 
+                //Only printing something ends the text before it
+                if !matches!(maybe_gfx, None | Some(GraphicsCommand::Error(_))) {
+                    self.process_text();
+                }
+
                 if let Some(gfx) = maybe_gfx {
                     match gfx {
                         GraphicsCommand::Error(error) => {
-- 
2.43.0


From 15dca889edbe0f2908e7a8ee88c257250c62b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 59/86] fix: a form feed begins a new document

---
 thermal_parser/src/commands/formfeed.rs | 4 ++--
 thermal_renderer/src/renderer.rs        | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/formfeed.rs b/thermal_parser/src/commands/formfeed.rs
index 9972471..7d6282c 100644
--- a/thermal_parser/src/commands/formfeed.rs
+++ b/thermal_parser/src/commands/formfeed.rs
@@ -1,4 +1,4 @@
-use crate::command::DeviceCommand::{EndPageMode, EndPrint, PrintPageMode};
+use crate::command::DeviceCommand::{BeginPrint, EndPageMode, EndPrint, PrintPageMode};
 use crate::{command::*, constants::*, context::*};
 
 #[derive(Clone)]
@@ -14,7 +14,7 @@ impl CommandHandler for Handler {
         if context.page_mode.enabled {
             return Some(vec![EndPageMode, PrintPageMode]);
         }
-        Some(vec![EndPrint])
+        Some(vec![EndPrint, BeginPrint])
     }
 }
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 365e336..06c0a7f 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -242,6 +242,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.context.text.justify = j.clone();
                     }
                     DeviceCommand::BeginPrint => {
+                        //Every document starts at the top of the paper
+                        if let Some(default) = &self.context.default {
+                            self.context.graphics.render_area.y = default.graphics.render_area.y;
+                        }
+
                         //Start the render at two newlines worth of height
                         self.context.newline(2);
                         self.renderer.begin_render(&mut self.context)
-- 
2.43.0


From d1b1775e82fc166c054f650d8da9e4c2bcb9253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 60/86] fix: errors of a document are not reported again by the
 next

---
 thermal_renderer/src/image_renderer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index 76d1182..f8a37b4 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -71,6 +71,10 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
         self.paper_image.paper_color = context.graphics.render_colors.paper_color;
         self.page_image.paper_color = context.graphics.render_colors.paper_color;
 
+        //Errors are reported once by the document that caused them
+        self.paper_image.errors.clear();
+        self.page_image.errors.clear();
+
         //Initialize the main image area
         self.paper_image.empty();
         self.paper_image.set_width(context.graphics.render_area.w);
-- 
2.43.0


From 5d93b2f7771b96f9f887e39ccd8069d37de88841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 61/86] fix: initialize does not move the paper back over what
 was printed

---
 thermal_parser/src/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 89f4d3a..d5c7211 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -598,7 +598,10 @@ impl Context {
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
+            let paper_y = self.graphics.render_area.y;
             self.graphics = default.graphics.clone();
+            //The paper does not move
+            self.graphics.render_area.y = paper_y;
             self.page_mode = default.page_mode.clone();
         }
     }
-- 
2.43.0


From 753d07b76d000bbb5140011a0a2ff8beaf75cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 62/86] fix: every job starts with its own context

---
 thermal_renderer/src/renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 06c0a7f..915ad47 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -118,6 +118,7 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     pub fn render(&mut self, bytes: &Vec<u8>) -> RenderOutput<Output> {
+        self.context = Context::new();
         self.renderer.set_debug_profile(self.debug_profile);
         self.log_debug_start("Begin Render");
 
-- 
2.43.0


From 756502a7aceb4a6956798633cabc566e7679b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 63/86] fix: printed text can not be interpreted as html markup

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..68f3000 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,17 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+fn escape_html(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From 6a1eaa5698736ddf1fdacb8dbf26dfc3c3b35822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 64/86] fix: printed text can not be interpreted as template
 syntax

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 0316424..9fcfaad 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -254,7 +254,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -264,7 +263,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From c0f18e27de8651b5918e4b24a3dfe08f4e854517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 65/86] fix: html rows without content do not change the
 position of the next row

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 9fcfaad..861358a 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -81,6 +81,10 @@ impl HtmlRenderer {
     }
 
     fn push_row(&mut self, row: HtmlRow) {
+        if row.height == 0 && row.content.is_empty() {
+            return;
+        }
+
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-- 
2.43.0


From f0d34ec0d985ceda8cdae16915de6a06e100aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 66/86] fix: html images without pixels no longer panic

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 68f3000..bf4e3ed 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -7,6 +7,11 @@ use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
 
 pub fn encode_html_image(image: &Image) -> HtmlRow {
+    // There is no PNG without pixels
+    if image.w == 0 || image.h == 0 {
+        return HtmlRow::empty();
+    }
+
     // Create a buffer to hold the PNG image data
     let mut png_data: Vec<u8> = Vec::new();
     let image_data: Vec<u8> = image.as_rgba_u8();
-- 
2.43.0


From dc34a55509422a1ab2d83c8c5254b9a9e890c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 67/86] fix: html rows above the end of the previous row keep
 their position

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 861358a..28ab4a9 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -88,7 +88,7 @@ impl HtmlRenderer {
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-            row.y.saturating_sub(self.last_y),
+            row.y as i64 - self.last_y as i64,
             row.content
         ));
         self.last_y = row.y + row.height;
@@ -115,7 +115,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         //We keep track of the last y so that we can render things
         //from top to bottom in the html flow instead of having
         //every element be position absolute
-        self.last_y = context.get_y();
+        self.last_y = 0;
 
         self.content.clear();
         self.push_row(HtmlRow {
-- 
2.43.0


From a5d381d4f692e4633a42142d988162a2330c31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 68/86] fix: html paper is as long as the print when it ends in
 page mode

---
 thermal_renderer/src/html_renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 28ab4a9..f94e16a 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -238,7 +238,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
-        let padding_bottom = context.get_y().saturating_sub(self.last_y);
+        let padding_bottom = context.graphics.render_area.y.saturating_sub(self.last_y);
 
         let content = self
             .template
-- 
2.43.0


From 253ed322fc66e6e0475ded738a229d949dcadc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 69/86] fix: html barcodes and 2D codes are drawn in the
 selected color

---
 thermal_renderer/src/html_renderer/mod.rs          | 2 +-
 thermal_renderer/src/html_renderer/thermal_html.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index f94e16a..f14c980 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -200,7 +200,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 }
             }
         } else {
-            self.push_row(graphics_to_svg(graphics));
+            self.push_row(graphics_to_svg(graphics, &context.text.color));
         }
     }
 
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index bf4e3ed..78c261f 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -38,7 +38,7 @@ pub fn encode_html_image(image: &Image) -> HtmlRow {
     }
 }
 
-pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
+pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>, color: &RGBA) -> HtmlRow {
     if graphics.is_empty() {
         return HtmlRow::empty();
     }
@@ -67,8 +67,8 @@ pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
                 height = height.max(y + rectangle.h);
 
                 svg.push(format!(
-                    "<rect width='{}' height='{}' x='{}' y='{}' fill='black' />",
-                    rectangle.w, rectangle.h, x, y
+                    "<rect width='{}' height='{}' x='{}' y='{}' fill='{}' />",
+                    rectangle.w, rectangle.h, x, y, color.as_hex()
                 ));
             }
         }
-- 
2.43.0


From 9a75183a682b9fb6c32d4b379535c4390e86981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 70/86] fix: codepage 850 decodes the cent and yen signs

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
-- 
2.43.0


From bb49dbf6ba70e75b5a7fcd6dae2e08d1907c05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 71/86] fix: codepage 865 decodes the characters of codepage
 865

---
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From a2bd686d896b89964b347467075004328fe6f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 72/86] fix: international character sets replace the
 documented characters

---
 thermal_parser/src/decoder/international.rs | 96 ++++++++++-----------
 1 file changed, 46 insertions(+), 50 deletions(-)

diff --git a/thermal_parser/src/decoder/international.rs b/thermal_parser/src/decoder/international.rs
index 0fa3ac7..48df32c 100644
--- a/thermal_parser/src/decoder/international.rs
+++ b/thermal_parser/src/decoder/international.rs
@@ -6,15 +6,13 @@ pub static FRANCE: Language = (
     "French",
     &[
         (0x40, "à"),
-        (0x5B, "ç"),
-        (0x5C, "§"),
-        (0x5D, "^"),
-        (0x5E, "é"),
-        (0x60, "ù"),
-        (0x7B, "è"),
-        (0x7C, "¨"),
-        (0x7D, "û"),
-        (0x7E, "ü"),
+        (0x5B, "°"),
+        (0x5C, "ç"),
+        (0x5D, "§"),
+        (0x7B, "é"),
+        (0x7C, "ù"),
+        (0x7D, "è"),
+        (0x7E, "¨"),
     ],
 );
 
@@ -25,10 +23,10 @@ pub static GERMANY: Language = (
         (0x5B, "Ä"),
         (0x5C, "Ö"),
         (0x5D, "Ü"),
-        (0x60, "ä"),
-        (0x7B, "ö"),
-        (0x7C, "ü"),
-        (0x7D, "ß"),
+        (0x7B, "ä"),
+        (0x7C, "ö"),
+        (0x7D, "ü"),
+        (0x7E, "ß"),
     ],
 );
 
@@ -37,22 +35,19 @@ pub static UK: Language = ("British English", &[(0x23, "£")]);
 pub static DENMARK_I: Language = (
     "Danish Variant I",
     &[
-        (0x40, "Ä"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
-        (0x5E, "^"),
-        (0x60, "ä"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
-        (0x7E, "~"),
     ],
 );
 
 pub static SWEDEN: Language = (
     "Swedish",
     &[
+        (0x24, "¤"),
         (0x40, "É"),
         (0x5B, "Ä"),
         (0x5C, "Ö"),
@@ -69,12 +64,11 @@ pub static SWEDEN: Language = (
 pub static ITALY: Language = (
     "Italian",
     &[
-        (0x40, "§"),
-        (0x5C, "ù"),
-        (0x5E, "é"),
-        (0x60, "à"),
-        (0x7B, "ò"),
-        (0x7C, "ç"),
+        (0x5B, "°"),
+        (0x5D, "é"),
+        (0x60, "ù"),
+        (0x7B, "à"),
+        (0x7C, "ò"),
         (0x7D, "è"),
         (0x7E, "ì"),
     ],
@@ -83,28 +77,27 @@ pub static ITALY: Language = (
 pub static SPAIN_I: Language = (
     "Spanish Variant I",
     &[
-        (0x40, "Ñ"),
+        (0x23, "₧"),
         (0x5B, "¡"),
-        (0x5C, "¿"),
-        (0x5D, "ç"),
-        (0x7B, "ñ"),
-        (0x7C, "¬"),
-        (0x7D, "½"),
-        (0x7E, "¼"),
+        (0x5C, "Ñ"),
+        (0x5D, "¿"),
+        (0x7B, "¨"),
+        (0x7C, "ñ"),
     ],
 );
 
-pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥"), (0x7C, "¦")]);
+pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥")]);
 
 pub static NORWAY: Language = (
     "Norwegian",
     &[
-        (0x40, "Ä"),
+        (0x24, "¤"),
+        (0x40, "É"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
         (0x5E, "Ü"),
-        (0x60, "ä"),
+        (0x60, "é"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
@@ -132,13 +125,12 @@ pub static SPAIN_II: Language = (
     "Spanish Variant II",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "á"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
@@ -148,33 +140,37 @@ pub static LATIN_AMERICA: Language = (
     "Latin",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "é"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x60, "ü"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
 );
 
-pub static KOREA: Language = ("Korean", &[(0x5C, "₩"), (0x7C, "₩")]);
+pub static KOREA: Language = ("Korean", &[(0x5C, "₩")]);
 
 pub static SLOVENIA: Language = (
     "Slovenian",
     &[
+        (0x40, "Ž"),
         (0x5B, "Š"),
         (0x5C, "Đ"),
-        (0x5D, "Č"),
-        (0x7B, "ž"),
+        (0x5D, "Ć"),
+        (0x5E, "Č"),
+        (0x60, "ž"),
+        (0x7B, "š"),
         (0x7C, "đ"),
-        (0x7D, "č"),
+        (0x7D, "ć"),
+        (0x7E, "č"),
     ],
 );
 
-pub static CHINA: Language = ("Chinese", &[(0x5C, "¥")]);
+pub static CHINA: Language = ("Chinese", &[(0x24, "¥")]);
 
 pub static VIETNAM: Language = ("Vietnamese", &[(0x23, "đ")]);
 
-- 
2.43.0


From e1b927f11efc187686658e559f3f9791454dc8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 73/86] fix: maxicode modes below 48 no longer underflow

---
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..803fb16 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        context.code2d.maxicode_mode = n.saturating_sub(48);
     }
 }
 
-- 
2.43.0


From aaefbadc1ce7672cb6bf29d3342bd505b4e812ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 74/86] fix: empty parts of broken words do not count towards
 the line height

---
 thermal_renderer/src/renderer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 915ad47..a46dd70 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -521,7 +521,11 @@ impl<'a, Output> Renderer<'a, Output> {
                 for (i, broke) in broken.iter_mut().enumerate() {
                     let last = broken_len == i;
                     broke.get_dimensions(&self.context);
-                    current_line.push(broke.clone()); //ugg
+
+                    //Nothing fits into the rest of the line, the line stays as is
+                    if !broke.text.is_empty() {
+                        current_line.push(broke.clone()); //ugg
+                    }
 
                     if last {
                         //Last word doesn't geta a forced newline
-- 
2.43.0


From b7f15c90ee537c4c2f763ed0efac091898bc71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 75/86] fix: motion units of high resolutions do not wrap

---
 thermal_parser/src/commands/set_motion_units.rs | 4 ++--
 thermal_parser/src/context.rs                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2d298dc..84b1da6 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -23,7 +23,7 @@ impl CommandHandler for Handler {
         let v_motion_unit = (context.graphics.dots_per_inch / y as u16).max(1);
 
         if x > 0 {
-            context.graphics.h_motion_unit = h_motion_unit as u8;
+            context.graphics.h_motion_unit = h_motion_unit;
         } else {
             if let Some(default_context) = &context.default {
                 context.graphics.h_motion_unit = default_context.graphics.h_motion_unit;
@@ -31,7 +31,7 @@ impl CommandHandler for Handler {
         }
 
         if y > 0 {
-            context.graphics.v_motion_unit = v_motion_unit as u8;
+            context.graphics.v_motion_unit = v_motion_unit;
         } else {
             if let Some(default_context) = &context.default {
                 context.graphics.v_motion_unit = default_context.graphics.v_motion_unit;
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index d5c7211..d5ac707 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -138,8 +138,8 @@ pub struct GraphicsContext {
     pub paper_area: RenderArea,
 
     pub dots_per_inch: u16,
-    pub v_motion_unit: u8,
-    pub h_motion_unit: u8,
+    pub v_motion_unit: u16,
+    pub h_motion_unit: u16,
     pub graphics_count: u16,
     pub stored_graphics: HashMap<ImageRef, GraphicsCommand>,
     pub buffer_graphics: Vec<GraphicsCommand>,
-- 
2.43.0


From c656b76c1dd2beb3810f38ce28c671503f22a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 76/86] fix: sensor and panel button commands are recognised by
 their opcodes

---
 thermal_parser/src/commands/paper_end_sensor.rs  | 2 +-
 thermal_parser/src/commands/print_stop_sensor.rs | 2 +-
 thermal_parser/src/commands/set_panel_buttons.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/paper_end_sensor.rs b/thermal_parser/src/commands/paper_end_sensor.rs
index 2cab94a..5260d48 100644
--- a/thermal_parser/src/commands/paper_end_sensor.rs
+++ b/thermal_parser/src/commands/paper_end_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Select Paper End Sensors",
-        vec![ESC, 'c' as u8, 3u8],
+        vec![ESC, 'c' as u8, '3' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/print_stop_sensor.rs b/thermal_parser/src/commands/print_stop_sensor.rs
index 4a7e665..e66d6e9 100644
--- a/thermal_parser/src/commands/print_stop_sensor.rs
+++ b/thermal_parser/src/commands/print_stop_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Print Stop Sensors",
-        vec![ESC, 'c' as u8, 4u8],
+        vec![ESC, 'c' as u8, '4' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/set_panel_buttons.rs b/thermal_parser/src/commands/set_panel_buttons.rs
index 84f17cd..0b8c45d 100644
--- a/thermal_parser/src/commands/set_panel_buttons.rs
+++ b/thermal_parser/src/commands/set_panel_buttons.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Enable Panel Buttons",
-        vec![ESC, 'c' as u8, 5u8],
+        vec![ESC, 'c' as u8, '5' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
-- 
2.43.0


From 2b550681754015c7ebb1d5107cbbaae92d09a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 77/86] fix: the check digit of long interleaved 2 of 5
 barcodes does not overflow

---
 thermal_parser/src/commands/barcode.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 3fc6f7e..a436df6 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -253,7 +253,17 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Itf => {
-                return match TF::interleaved(data.to_string()) {
+                let mut digits = data.to_string();
+
+                //An odd number of digits is completed by a check digit. The one
+                //of the barcoders crate overflows when there are a lot of digits
+                if data.len() % 2 == 1 && data.bytes().all(|d| d.is_ascii_digit()) {
+                    let weighted = |(i, d): (usize, u8)| (d - b'0') as u32 * if i % 2 == 0 { 3 } else { 1 };
+                    let sum: u32 = data.bytes().enumerate().map(weighted).sum();
+                    digits.push((b'0' + ((10 - sum % 10) % 10) as u8) as char);
+                }
+
+                return match TF::interleaved(digits) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From adddd5709b8edaf7141db98179d6974e80477ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 78/86] fix: data that ends in the half codeword of a micro QR
 is stored in the next version

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index aafbd8b..259c887 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -2,6 +2,8 @@ extern crate qr_code;
 
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
+use qr_code::bits::Bits;
+use qr_code::types::{QrError, QrResult};
 use qr_code::{EcLevel, QrCode, Version};
 
 #[derive(Clone)]
@@ -32,6 +34,23 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
     max_version
 }
 
+// The last codeword of micro QR versions 1 and 3 has 4 bits. The
+// library can't pad data that ends in it.
+fn ends_in_half_codeword(data: &[u8], version: Version, error_correction: EcLevel) -> QrResult<bool> {
+    let terminator_size = match version {
+        Version::Micro(1) => 3,
+        Version::Micro(3) => 7,
+        _ => return Ok(false),
+    };
+
+    let mut bits = Bits::new(version);
+    bits.push_optimal_data(data)?;
+
+    let capacity = bits.max_len(error_correction)?;
+    let len = bits.len() + terminator_size;
+    Ok(len < capacity && len > capacity / 8 * 8)
+}
+
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         //The first byte is the parameter m, it is not part of the symbol data
@@ -63,6 +82,9 @@ impl CommandHandler for Handler {
                 QrModel::Model2 => Version::Normal(modules),
                 Micro => Version::Micro(modules),
             };
+            if ends_in_half_codeword(data, version, error_correction)? {
+                return Err(QrError::DataTooLong);
+            }
             QrCode::with_version(data, version, error_correction)
         };
 
-- 
2.43.0


From 2c075b7e37e3591c7276a8641850947ee134801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 79/86] fix: check digits that are no digits are reported

---
 thermal_parser/src/commands/barcode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index a436df6..76b83e6 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -201,6 +201,9 @@ impl CommandHandler for BarcodeHandler {
                     Err(error) => self.decorate_error(error.to_string(), command),
                 };
             }
+            BarcodeType::Ean13 | BarcodeType::UpcA if !data.bytes().all(|d| d.is_ascii_digit()) => {
+                return self.decorate_error("Invalid characters".to_string(), command);
+            }
             BarcodeType::Ean13 => {
                 let data_sp = data.get(..12).unwrap_or(data);
                 return match EAN13::new(data_sp.to_string()) {
-- 
2.43.0


From 5e142aa3a427b366bb81419c61048591fb1a0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 80/86] fix: readable text of CODE128 keeps what is left of
 removed code sets

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 76b83e6..08c5151 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -138,7 +138,7 @@ impl CommandHandler for BarcodeHandler {
                     .replace("{B", "Ɓ")
                     .replace("{C", "Ć");
 
-                let hri_data: String = data.replace("{A", "").replace("{B", "").replace("{C", "");
+                let hri_data: String = adjusted_data.replace(['À', 'Ɓ', 'Ć'], "");
 
                 return match Code128::new(adjusted_data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From 7203d09598bf0c47f4416e32afe5bd2f004d82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 81/86] fix: memory of images is reserved for their data
 instead of their stated size

---
 thermal_parser/src/graphics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index d61d9b5..32badc9 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -375,8 +375,8 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 
 /// Unpacks bits into bytes and makes sure that extra padding
 /// is added for widths that are not divisible by eight.
-fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let mut bytes = Vec::with_capacity(width as usize * height as usize);
+fn unpack_bytes(pixels: &[u8], width: u32, _height: u32) -> Vec<u8> {
+    let mut bytes = Vec::with_capacity(pixels.len() * 8);
 
     //number of bytes we need to use for the last column of each row of data
     let mut padding = width % 8;
-- 
2.43.0


From ca7975a544b6757cbef9e84df510de9db0c04a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 82/86] fix: words of thermal files that are no hex or decimal
 byte are kept as text

---
 thermal_parser/src/thermal_file.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index c0f618f..0f1ad50 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -70,11 +70,13 @@ pub fn parse_str(text: &str) -> Vec<u8> {
                 "CAN" => parsed.push(CAN),
                 _ => {
                     //Hex 0xFF for example
-                    if token.starts_with(HEX_PREFIX) {
-                        let maybe_byte = u8::from_str_radix(&token[2..], 16);
-                        if let Ok(byte) = maybe_byte {
-                            parsed.push(byte);
-                        }
+                    let maybe_byte = token
+                        .strip_prefix(HEX_PREFIX)
+                        .filter(|digits| !digits.starts_with('+'))
+                        .and_then(|digits| u8::from_str_radix(digits, 16).ok());
+
+                    if let Some(byte) = maybe_byte {
+                        parsed.push(byte);
                     }
                     //raw strings start with quote
                     else if token.starts_with('"') {
@@ -85,10 +87,12 @@ pub fn parse_str(text: &str) -> Vec<u8> {
                     }
                     //Decimal
                     else {
-                        let maybe_decimal = token.parse::<u8>();
+                        let maybe_decimal = Some(token)
+                            .filter(|digits| !digits.starts_with('+'))
+                            .and_then(|digits| digits.parse::<u8>().ok());
 
                         //Can parse decimal from string
-                        if let Ok(decimal) = maybe_decimal {
+                        if let Some(decimal) = maybe_decimal {
                             parsed.push(decimal)
                         }
                         //Cannot parse decimal, output raw
-- 
2.43.0


From fe9c8398b1f7c6f0ecf3f26e0c9b65604f6fcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 83/86] fix: Micro QR symbols M3-L are not drawn, their last
 codeword is wrong

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 259c887..4bed564 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -35,10 +35,12 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 }
 
 // The last codeword of micro QR versions 1 and 3 has 4 bits. The
-// library can't pad data that ends in it.
+// library can't pad data that ends in it and draws version 3 with
+// the lowest error correction as if it had 8.
 fn ends_in_half_codeword(data: &[u8], version: Version, error_correction: EcLevel) -> QrResult<bool> {
     let terminator_size = match version {
         Version::Micro(1) => 3,
+        Version::Micro(3) if error_correction == EcLevel::L => return Ok(true),
         Version::Micro(3) => 7,
         _ => return Ok(false),
     };
-- 
2.43.0


From a50aed01fff68360df35448973dafe2c5d455225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 84/86] fix: Codabar symbols have unreadable plus signs and
 swapped guards B and C

---
 thermal_parser/src/commands/barcode.rs       |  2 +-
 thermal_parser/src/utils/barcodes/codabar.rs | 63 ++++++++++++++++++++
 thermal_parser/src/utils/barcodes/mod.rs     |  1 +
 3 files changed, 65 insertions(+), 1 deletion(-)
 create mode 100644 thermal_parser/src/utils/barcodes/codabar.rs

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 08c5151..7dd9ce0 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -3,7 +3,6 @@ extern crate barcoders;
 use std::cmp::PartialEq;
 use std::str::from_utf8;
 
-use barcoders::sym::codabar::Codabar;
 use barcoders::sym::code128::Code128;
 use barcoders::sym::code39::Code39;
 use barcoders::sym::code93::Code93;
@@ -13,6 +12,7 @@ use barcoders::sym::ean8::EAN8;
 use barcoders::sym::tf::TF;
 
 use crate::text::TextSpan;
+use crate::utils::barcodes::codabar::Codabar;
 use crate::utils::barcodes::upce::UPCE;
 use crate::{command::*, constants::*, context::*, graphics::*};
 
diff --git a/thermal_parser/src/utils/barcodes/codabar.rs b/thermal_parser/src/utils/barcodes/codabar.rs
new file mode 100644
index 0000000..c70c306
--- /dev/null
+++ b/thermal_parser/src/utils/barcodes/codabar.rs
@@ -0,0 +1,63 @@
+// Bars and spaces of the characters in turn, 1 is a wide one.
+// The barcoders crate has a plus sign with too many wide elements and
+// swaps the guards B and C.
+const CHARS: [(char, [u8; 7]); 20] = [
+    ('0', [0, 0, 0, 0, 0, 1, 1]),
+    ('1', [0, 0, 0, 0, 1, 1, 0]),
+    ('2', [0, 0, 0, 1, 0, 0, 1]),
+    ('3', [1, 1, 0, 0, 0, 0, 0]),
+    ('4', [0, 0, 1, 0, 0, 1, 0]),
+    ('5', [1, 0, 0, 0, 0, 1, 0]),
+    ('6', [0, 1, 0, 0, 0, 0, 1]),
+    ('7', [0, 1, 0, 0, 1, 0, 0]),
+    ('8', [0, 1, 1, 0, 0, 0, 0]),
+    ('9', [1, 0, 0, 1, 0, 0, 0]),
+    ('-', [0, 0, 0, 1, 1, 0, 0]),
+    ('$', [0, 0, 1, 1, 0, 0, 0]),
+    (':', [1, 0, 0, 0, 1, 0, 1]),
+    ('/', [1, 0, 1, 0, 0, 0, 1]),
+    ('.', [1, 0, 1, 0, 1, 0, 0]),
+    ('+', [0, 0, 1, 0, 1, 0, 1]),
+    ('A', [0, 0, 1, 1, 0, 1, 0]),
+    ('B', [0, 1, 0, 1, 0, 0, 1]),
+    ('C', [0, 0, 0, 1, 0, 1, 1]),
+    ('D', [0, 0, 0, 1, 1, 1, 0]),
+];
+
+pub struct Codabar(Vec<[u8; 7]>);
+
+impl Codabar {
+    /// Creates a new barcode, the data includes the guards
+    pub fn new(data: String) -> Result<Codabar, String> {
+        let mut units = vec![];
+
+        for char in data.chars() {
+            match CHARS.iter().find(|c| c.0 == char) {
+                Some((_, unit)) => units.push(*unit),
+                None => return Err(String::from("Invalid Codabar: Invalid characters")),
+            }
+        }
+
+        Ok(Codabar(units))
+    }
+
+    /// Encodes the barcode.
+    /// Returns a Vec<u8> of binary digits.
+    pub fn encode(&self) -> Vec<u8> {
+        let mut encoded = vec![];
+
+        for unit in &self.0 {
+            //Narrow space between the characters
+            if !encoded.is_empty() {
+                encoded.push(0);
+            }
+
+            for (i, wide) in unit.iter().enumerate() {
+                let bar = if i % 2 == 0 { 1 } else { 0 };
+                encoded.extend(vec![bar; 1 + *wide as usize]);
+            }
+        }
+
+        encoded
+    }
+}
diff --git a/thermal_parser/src/utils/barcodes/mod.rs b/thermal_parser/src/utils/barcodes/mod.rs
index 88a178b..7927244 100644
--- a/thermal_parser/src/utils/barcodes/mod.rs
+++ b/thermal_parser/src/utils/barcodes/mod.rs
@@ -1 +1,2 @@
+pub mod codabar;
 pub mod upce;
\ No newline at end of file
-- 
2.43.0


From e4075d54bbef1baf3af7d68edd9e1da6465d4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 85/86] fix: Code 93 symbols have a wrong check character 46
 and take its shift signs as data

---
 thermal_parser/src/commands/barcode.rs      |  2 +-
 thermal_parser/src/utils/barcodes/code93.rs | 57 +++++++++++++++++++++
 thermal_parser/src/utils/barcodes/mod.rs    |  1 +
 3 files changed, 59 insertions(+), 1 deletion(-)
 create mode 100644 thermal_parser/src/utils/barcodes/code93.rs

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 7dd9ce0..bbbe8f3 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -5,7 +5,6 @@ use std::str::from_utf8;
 
 use barcoders::sym::code128::Code128;
 use barcoders::sym::code39::Code39;
-use barcoders::sym::code93::Code93;
 use barcoders::sym::ean13::EAN13;
 use barcoders::sym::ean13::UPCA;
 use barcoders::sym::ean8::EAN8;
@@ -13,6 +12,7 @@ use barcoders::sym::tf::TF;
 
 use crate::text::TextSpan;
 use crate::utils::barcodes::codabar::Codabar;
+use crate::utils::barcodes::code93::Code93;
 use crate::utils::barcodes::upce::UPCE;
 use crate::{command::*, constants::*, context::*, graphics::*};
 
diff --git a/thermal_parser/src/utils/barcodes/code93.rs b/thermal_parser/src/utils/barcodes/code93.rs
new file mode 100644
index 0000000..2ab7df0
--- /dev/null
+++ b/thermal_parser/src/utils/barcodes/code93.rs
@@ -0,0 +1,57 @@
+// Characters in the order of their values
+const CHARS: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
+
+// Bars by value. The last four are the shift characters, they have no
+// character of their own but can be check characters. The barcoders crate
+// takes the wrong one for the last value.
+const BARS: [u16; 47] = [
+    0b100010100, 0b101001000, 0b101000100, 0b101000010, 0b100101000, 0b100100100, 0b100100010,
+    0b101010000, 0b100010010, 0b100001010, 0b110101000, 0b110100100, 0b110100010, 0b110010100,
+    0b110010010, 0b110001010, 0b101101000, 0b101100100, 0b101100010, 0b100110100, 0b100011010,
+    0b101011000, 0b101001100, 0b101000110, 0b100101100, 0b100010110, 0b110110100, 0b110110010,
+    0b110101100, 0b110100110, 0b110010110, 0b110011010, 0b101101100, 0b101100110, 0b100110110,
+    0b100111010, 0b100101110, 0b111010100, 0b111010010, 0b111001010, 0b101101110, 0b101110110,
+    0b110101110, 0b100100110, 0b111011010, 0b111010110, 0b100110010,
+];
+
+// Start and stop
+const GUARD: u16 = 0b101011110;
+
+pub struct Code93(Vec<usize>);
+
+impl Code93 {
+    /// Creates a new barcode
+    pub fn new(data: String) -> Result<Code93, String> {
+        let mut values = vec![];
+
+        for char in data.chars() {
+            match CHARS.find(char) {
+                Some(value) => values.push(value),
+                None => return Err(String::from("Invalid Code93: Invalid characters")),
+            }
+        }
+
+        //Two check characters, the second one includes the first one
+        for max_weight in [20, 15] {
+            let weighted = |(i, value): (usize, &usize)| (i % max_weight + 1) * value;
+            let sum: usize = values.iter().rev().enumerate().map(weighted).sum();
+            values.push(sum % BARS.len());
+        }
+
+        Ok(Code93(values))
+    }
+
+    /// Encodes the barcode.
+    /// Returns a Vec<u8> of binary digits.
+    pub fn encode(&self) -> Vec<u8> {
+        let mut encoded = vec![];
+
+        let bars = self.0.iter().map(|value| BARS[*value]);
+        for unit in [GUARD].into_iter().chain(bars).chain([GUARD]) {
+            encoded.extend((0..9).rev().map(|bit| (unit >> bit & 1) as u8));
+        }
+
+        encoded.push(1);
+        encoded
+    }
+}
diff --git a/thermal_parser/src/utils/barcodes/mod.rs b/thermal_parser/src/utils/barcodes/mod.rs
index 7927244..e9fa211 100644
--- a/thermal_parser/src/utils/barcodes/mod.rs
+++ b/thermal_parser/src/utils/barcodes/mod.rs
@@ -1,2 +1,3 @@
 pub mod codabar;
+pub mod code93;
 pub mod upce;
\ No newline at end of file
-- 
2.43.0


From cbdbc11fa870c58c3aa7bff2e52767dee5c4521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 86/86] fix: adding the margins to an image takes a time that
 grows with the square of its height

---
 .../src/image_renderer/thermal_image.rs       | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 6965589..8e04f4d 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -678,29 +678,20 @@ impl ThermalImage {
         if new_width < old_width {
             return;
         };
-        let height = self.get_height();
-        let left = ((new_width - old_width) as f32 / 2.0).floor() as u32;
-        let right = new_width - (left + old_width);
+        let height = self.get_height() as usize;
+        let left = ((new_width - old_width) as f32 / 2.0).floor() as usize;
 
-        self.bytes
-            .try_reserve((height as usize * new_width as usize - self.bytes.len()) as usize)
-            .unwrap();
-
-        let mut insert_idx = 0;
-
-        let left_bytes = vec![self.paper_color; left as usize];
-        let right_bytes = vec![self.paper_color; right as usize];
-
-        for _ in 0..height {
-            self.bytes
-                .splice(insert_idx..insert_idx, left_bytes.clone());
-            insert_idx += left as usize + old_width as usize;
-
-            self.bytes
-                .splice(insert_idx..insert_idx, right_bytes.clone());
-            insert_idx += right as usize;
+        //All rows are copied once, inserting into the rows one by one takes
+        //a time that grows with the square of the height
+        let mut bytes = vec![self.paper_color; new_width as usize * height];
+        if old_width > 0 {
+            let rows = bytes.chunks_mut(new_width as usize);
+            for (row, old_row) in rows.zip(self.bytes.chunks(old_width as usize)) {
+                row[left..left + old_row.len()].copy_from_slice(old_row);
+            }
         }
 
+        self.bytes = bytes;
         self.width = new_width;
     }
 
-- 
2.43.0

