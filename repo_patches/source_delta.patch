From b5eab8c34245561ea0416adb24dc009d7a656863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 01/40] fix: construct Memory and FIFOs by keyword so every
 module generates

nMigen's Memory, SyncFIFO and SyncFIFOBuffered only take keyword arguments, and
SyncFIFO has no 'replace' input (it was only ever tied to 0 here), so sixteen
modules - every top level among them - raised instead of generating Verilog.
---
 migen_src/axihp_fifo.py         |  2 +-
 migen_src/b64_b32.py            | 10 ++--------
 migen_src/converter_fifo.py     |  2 +-
 migen_src/encode.py             |  2 +-
 migen_src/lj92_pipeline_fifo.py |  2 +-
 5 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/migen_src/axihp_fifo.py b/migen_src/axihp_fifo.py
index 0428edc..f8e8e60 100644
--- a/migen_src/axihp_fifo.py
+++ b/migen_src/axihp_fifo.py
@@ -32,7 +32,7 @@ class AxiHPFifo(Elaboratable):
 			[self.writable16, self.readable16] + \
 			[self.read]
 
-		self.fifo = SyncFIFO(65, 32)
+		self.fifo = SyncFIFO(width=65, depth=32)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..a19e955 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -53,17 +53,11 @@ class B64B32(Elaboratable):
         m = Module()
 
         # fifo module
-        fifo64 = SyncFIFO(64, 2)
-        fifo32 = SyncFIFO(32, 4)
+        fifo64 = SyncFIFO(width=64, depth=2)
+        fifo32 = SyncFIFO(width=32, depth=4)
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
-        # set replace to zero
-        m.d.sync += [
-            fifo32.replace.eq(0),
-            fifo64.replace.eq(0),
-        ]
-
         # register
         reg = Signal(64)
 
diff --git a/migen_src/converter_fifo.py b/migen_src/converter_fifo.py
index 9109081..bcad38e 100644
--- a/migen_src/converter_fifo.py
+++ b/migen_src/converter_fifo.py
@@ -72,7 +72,7 @@ class ConverterFifo(Elaboratable):
 			[self.enc_out, self.enc_out_ctr, self.out_end, self.valid_out] + \
 			[self.latch_output, self.writable, self.close_full]
 
-		self.fifo = SyncFIFOBuffered(self.total_bits, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_bits, depth=self.depth)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/encode.py b/migen_src/encode.py
index 0d7b6df..d5abb8f 100644
--- a/migen_src/encode.py
+++ b/migen_src/encode.py
@@ -192,7 +192,7 @@ class Encode(Elaboratable):
 		self.end_out = Signal(1)
 
 		# read ports to be accessed by encoders
-		self.mem = Memory(self.bd+21, self.bd+1, init_huff_table(self.bd))
+		self.mem = Memory(width=self.bd+21, depth=self.bd+1, init=init_huff_table(self.bd))
 		self.read_ports = [self.mem.read_port() for _ in range(self.ps)]
 		
 		if self.axi_lite:
diff --git a/migen_src/lj92_pipeline_fifo.py b/migen_src/lj92_pipeline_fifo.py
index cfac0c7..9642a39 100644
--- a/migen_src/lj92_pipeline_fifo.py
+++ b/migen_src/lj92_pipeline_fifo.py
@@ -72,7 +72,7 @@ class LJ92PipelineFifo(Elaboratable):
 			[self.latch_output, self.close_full]
 
 		# 4x dual port bram with 36kb each.
-		self.fifo = SyncFIFOBuffered(self.total_width, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_width, depth=self.depth)
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From 9d15a33abe3232c522f462b3516a7c738106a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 02/40] fix: carry end of frame and marker back-pressure
 through MicroIntegration

fix_0xff.end_in and fix_0xff2.end_in were never driven, so the end of a frame was
never signalled, and fix_0xff2 looked at the output's busy instead of the markers'
so the words it sent during the start marker were dropped. BetaIntegration wires
both as here.
---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From 99dc23bdf832aceba9a154cef77968fe7e5fc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 03/40] fix: code 16-bit differences modulo 2**16

A difference outside [-32767, 32768] was put in class 16, which carries no
extra bits, so a 16-bit sample such as 65535 after 0 could not be decoded.
---
 migen_src/integration_1.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/migen_src/integration_1.py b/migen_src/integration_1.py
index abb3394..6e77bbc 100644
--- a/migen_src/integration_1.py
+++ b/migen_src/integration_1.py
@@ -115,8 +115,16 @@ class Integration1(Elaboratable):
 		]
 
 		# difference and normalize
-		m.d.comb += [val_in.eq(val_out) for val_in, val_out in zip(normalize.vals_in, difference.vals_out)]
-		m.d.comb += [val_in_mns.eq(val_out_mns) for val_in_mns, val_out_mns in zip(normalize.vals_in_mns, difference.vals_out_mns)]
+		if self.bd == 16:
+			# with 16 bits per sample, the differences are coded modulo 2**16.
+			for val_in, val_in_mns, val_out, val_out_mns in zip(normalize.vals_in, normalize.vals_in_mns, difference.vals_out, difference.vals_out_mns):
+				m.d.comb += [
+					val_in.eq(Cat(val_out[0:16], val_out[15])),
+					val_in_mns.eq(Cat(val_out_mns[0:16], val_out[15])),
+				]
+		else:
+			m.d.comb += [val_in.eq(val_out) for val_in, val_out in zip(normalize.vals_in, difference.vals_out)]
+			m.d.comb += [val_in_mns.eq(val_out_mns) for val_in_mns, val_out_mns in zip(normalize.vals_in_mns, difference.vals_out_mns)]
 		m.d.comb += [
 			normalize.valid_in.eq(difference.valid_out),
 			normalize.end_in.eq(difference.end_out),			
-- 
2.43.0


From 7ea3f40ded50f7069edb58a3132551bcc137773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 04/40] fix: only close a frame once its end word was accepted

The end condition looked at the receiver's busy instead of the busy given to the
sender, so a frame of a single word, offered during the starting marker, was
dropped and the ending marker sent in its place.
---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..f093834 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
-- 
2.43.0


From 648a9ca6655be8832dd7210bff12953efcf60b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 05/40] fix: mark rows and the frame end for one-group rows and
 two-group frames

With width == pixels_per_cycle the first group already ends its row, but the row
counter underflowed, and in a one-row frame of two groups the end was looked for
one group too late: neither kind of frame ever ended.
---
 migen_src/signals.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/migen_src/signals.py b/migen_src/signals.py
index e3af351..3039dba 100644
--- a/migen_src/signals.py
+++ b/migen_src/signals.py
@@ -61,12 +61,24 @@ class Signals(Elaboratable):
 
 			with m.State("IDLE"):
 				with m.If(self.new_input):
-					m.d.sync += [
-						width_temp.eq(self.width-self.ps),
-						height_temp.eq(self.height-1),
-						self.new_row.eq(0),
-					]
+					# the first group is the whole row
+					with m.If(self.width == self.ps):
+						m.d.sync += [
+							width_temp.eq(self.width),
+							height_temp.eq(self.height-2),
+						]
+					with m.Else():
+						m.d.sync += [
+							width_temp.eq(self.width-self.ps),
+							height_temp.eq(self.height-1),
+							self.new_row.eq(0),
+						]
 					m.next = "LOOP"
+					with m.If(((self.height == 1) & (self.width == 2*self.ps)) | ((self.height == 2) & (self.width == self.ps))):
+						m.d.sync += [
+							self.end_of_frame.eq(1),
+						]
+						m.next = "END"
 
 			with m.State("LOOP"):
 				with m.If(self.new_input):
@@ -81,7 +93,7 @@ class Signals(Elaboratable):
 							width_temp.eq(width_temp-self.ps),
 							self.new_row.eq(0),
 						]
-					with m.If((height_temp == 0) & (width_temp == 2*self.ps)):
+					with m.If(((height_temp == 0) & (width_temp == 2*self.ps)) | ((height_temp == 1) & (self.width == self.ps))):
 						m.d.sync += [
 							self.end_of_frame.eq(1),
 						]
-- 
2.43.0


From d72be9cee20efc53e9e389d161eb27d0030aa2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 06/40] fix: keep the other half of a table entry when one half
 is written

Entries of more than 32 bits are written as two words. Each write cleared the half it
did not address, so no entry could be loaded through the AXI-lite port.
---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..1b2cd73 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
-- 
2.43.0


From ebe9fd9f6b8ca1050b57d6ddd92a2d23b7127e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 07/40] fix: keep an AXI-lite transfer going over the frame
 reset

The registers of the port are in the full domain but its state machine was reset with
the core after every frame, losing a transfer in progress and leaving its ready, valid
or table write strobe stuck.
---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1b2cd73..dfc1f8d 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
-- 
2.43.0


From b5447221c24c5a4b3875e50b240c45e065210b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 08/40] fix: follow the AXI handshakes in the AXI-lite port

Responses were only given once the master showed ready and then withdrawn after one
cycle, whether taken or not, and a write could leave wready up for a second beat that
was dropped. Hold each response until it is taken and accept one beat per write.
---
 migen_src/core_axi_lite.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index dfc1f8d..1f20ea0 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -337,8 +337,13 @@ class CoreAxiLite(Elaboratable):
 				with m.Else():
 					m.d.full += rresp_v.eq(3)
 				# to finish
+				m.d.full += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				with m.If(self.s_axi_ri.rready):
-					m.d.full += rvalid_v.eq(1)
+					m.d.full += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -362,8 +367,8 @@ class CoreAxiLite(Elaboratable):
 
 
 			with m.State("WRITE_DATA"):
-				m.d.full += wready_v.eq(1)	# ready for data
 				with m.If(self.s_axi_wi.wvalid):
+					m.d.full += wready_v.eq(1)	# ready for data, for one beat
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi.wdata),
 						wstrb_v.eq(self.s_axi_wi.wstrb),
@@ -389,9 +394,16 @@ class CoreAxiLite(Elaboratable):
 					clean_write_debug()
 				clean_write_hw()
 				clean_write_ssss()
-				m.d.full += wready_v.eq(0)
+				m.d.full += [
+					wready_v.eq(0),
+					bvalid_v.eq(1),
+				]
+				m.next = "WRITE_DONE"
+
+
+			with m.State("WRITE_DONE"):
 				with m.If(self.s_axi_wi.bready):
-					m.d.full += bvalid_v.eq(1)
+					m.d.full += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 354e70120f36f63b54806515fa3b8a34cf2e7e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 09/40] fix: deliver no word in the reset cycle after a frame

The marker stage keeps its output valid after the last word, and the automatic reset
takes effect one cycle later, so a ready receiver got one more word with the end flag
(on AXI stream, a packet of its own).
---
 migen_src/beta_integration.py  | 2 +-
 migen_src/micro_integration.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 6d7019c..98ab083 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -127,7 +127,7 @@ class BetaIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index f5b07dd..bbdea2a 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -126,7 +126,7 @@ class MicroIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
-- 
2.43.0


From 64f17458c59f2946c7b4fdac8f7cd7bc2b68acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 10/40] fix: write the given data to a table entry's upper half

The slice of the 32-bit write data started at bit 32, which is empty, so the upper
half was always written as zero.
---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1f20ea0..d3a8329 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start-32:end-32])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From 459b76097819e27bdaa8edcb53553afcd5719e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 11/40] fix: keep all eight bits of the byte b16_b40 sets aside

With both buffers full the low byte of the third word waits in temp_8, which was one bit
wide.
---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
-- 
2.43.0


From 91d88c8441bc9ed9814d9b7b8f11b960bbdd3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 12/40] fix: keep b16_b40's state machine in step with its
 buffers

The buffers are in the full domain and outlive the frame reset; the state machine was in
the core's domain and restarted at the first word of a 40-bit group after every frame.
---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..fb573fa 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From 028ecb2606ef3277df0b722c17183aa1da19c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 13/40] fix: be busy until the width converters can take the
 first word

They told the sender to go on in the first cycle after reset, but only look at the input
from the second one on.
---
 migen_src/b16_b40.py | 2 +-
 migen_src/b16_b64.py | 2 +-
 migen_src/b64_b32.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index fb573fa..96dff83 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -41,7 +41,7 @@ class B16B40(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b16_b64.py b/migen_src/b16_b64.py
index ecd8e3a..9626b69 100644
--- a/migen_src/b16_b64.py
+++ b/migen_src/b16_b64.py
@@ -43,7 +43,7 @@ class B16B64(Elaboratable):
         self.end_in = Signal(1)
         self.end_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a19e955..632da2a 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -41,7 +41,7 @@ class B64B32(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
-- 
2.43.0


From 8e0e82f661cff77101ac7a0fae56bab96178bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 14/40] fix: write bursts of exactly 16 beats and take every
 write response

---
 migen_src/axihp_writer.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..d929495 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -85,6 +85,7 @@ class AxiHPWriter(Elaboratable):
 		bready = Signal(1)
 
 		data_en = Signal(1)
+		last_en = Signal(1)
 		addr_en = Signal(1)
 		resp_en = Signal(1)
 
@@ -98,7 +99,7 @@ class AxiHPWriter(Elaboratable):
 		# idle phase
 		with m.If(awvalid==0):
 			# writer enabled & address available & below max
-			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0)):
+			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0) & (unconf[3]==0)):
 				m.d.sync += awvalid.eq(1)
 
 		# active phase
@@ -119,19 +120,17 @@ class AxiHPWriter(Elaboratable):
 
 		# wlast circuit
 		counter = Signal(4)
+		m.d.comb += wlast.eq(counter==(self.data_c-1))
 		with m.If(data_en):
-			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+			with m.If(wlast):
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
 
-		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
+		m.d.comb += [
+			data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1)),
+			last_en.eq((data_en==1) & (wlast==1)),
+		]
 
 		# idle phase
 		with m.If(wvalid==0):
@@ -141,7 +140,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If(last_en):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -160,8 +159,8 @@ class AxiHPWriter(Elaboratable):
 
 		# idle phase
 		with m.If(bready==0):
-			# writer enabled
-			with m.If(self.enable):
+			# writer enabled or responses due
+			with m.If((self.enable==1) | (unconf!=0)):
 				m.d.sync += bready.eq(1)
 
 		# active phase
@@ -180,11 +179,11 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From 30caf395ecbf5c1758ff65bdeee8adc79dcb332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 15/40] fix: count the last beat of a read burst only when it
 is transferred

---
 migen_src/axihp_reader.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..9e6f327 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -68,10 +68,10 @@ class AxiHPReader(Elaboratable):
 
 		active = Signal(4)
 		arvalid = Signal(1)
-		rlast = Signal(1)
 		rready = Signal(1)
 
 		data_en = Signal(1)
+		last_en = Signal(1)
 		addr_en = Signal(1)
 		resp_en = Signal(1)
 
@@ -104,7 +104,10 @@ class AxiHPReader(Elaboratable):
 		|     Data Pipeline    |
 		---------------------'''
 
-		m.d.comb += data_en.eq((rready==1) & (self.m_axi_ri.rvalid==1))
+		m.d.comb += [
+			data_en.eq((rready==1) & (self.m_axi_ri.rvalid==1)),
+			last_en.eq((data_en==1) & (self.m_axi_ri.rlast==1)),
+		]
 
 		# idle phase
 		with m.If(rready==0):
@@ -114,7 +117,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If(last_en):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +133,11 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From c86732334cd86e5445dfb1d1eca4924f32a1685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 16/40] fix: hold DMA port responses until taken, take one data
 beat per write, reject registers beyond the ninth observed value

---
 migen_src/dma_axi_lite.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..398a69a 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -135,7 +135,7 @@ class DMAAxiLite(Elaboratable):
 		basic_index = Signal(4)
 
 		m.d.comb += [
-			basic_enable.eq(addr_v[10]),
+			basic_enable.eq((addr_v[10]==1) & (addr_v[0:4] < 12)),
 			basic_index.eq(addr_v),
 		]
 
@@ -237,8 +237,13 @@ class DMAAxiLite(Elaboratable):
 				with m.Else():
 					m.d.sync += rresp_v.eq(3)
 				# to finish
+				m.d.sync += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				with m.If(self.s_axi_ri_.rready):
-					m.d.sync += rvalid_v.eq(1)
+					m.d.sync += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -253,8 +258,8 @@ class DMAAxiLite(Elaboratable):
 
 			with m.State("WRITE_DATA"):
 				m.d.sync += awready_v.eq(0)	# done
-				m.d.sync += wready_v.eq(1)	# ready for data
 				with m.If(self.s_axi_wi_.wvalid):
+					m.d.sync += wready_v.eq(1)	# ready for data, for one beat
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi_.wdata),
 						wstrb_v.eq(self.s_axi_wi_.wstrb),
@@ -270,9 +275,16 @@ class DMAAxiLite(Elaboratable):
 
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
-				m.d.sync += wready_v.eq(0)
+				m.d.sync += [
+					wready_v.eq(0),
+					bvalid_v.eq(1),
+				]
+				m.next = "WRITE_DONE"
+
+
+			with m.State("WRITE_DONE"):
 				with m.If(self.s_axi_wi_.bready):
-					m.d.sync += bvalid_v.eq(1)
+					m.d.sync += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 26aaedbf07941dfc9eefc7439b879503509f924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 17/40] fix: give each AXI response the id of its own transfer

---
 migen_src/axi_lite.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/migen_src/axi_lite.py b/migen_src/axi_lite.py
index f9219a6..89c8b9c 100644
--- a/migen_src/axi_lite.py
+++ b/migen_src/axi_lite.py
@@ -94,18 +94,11 @@ class AxiLite(Elaboratable):
 
 		m = Module()
 
-		rwid = Signal(12)
-
-		#main process
-		with m.If(self.s_axi_ri.arvalid):
-			m.d.sync += rwid.eq(self.s_axi_ri.arid)
-		with m.If(self.s_axi_wi.awvalid):
-			m.d.sync += rwid.eq(self.s_axi_wi.awid)
-
-		m.d.sync += [
-			self.s_axi_ro.rid.eq(rwid),
-			self.s_axi_wo.bid.eq(rwid),
-		]
+		#main process, a response carries the id of its own transfer
+		with m.If((self.s_axi_ri.arvalid==1) & (self.m_axi_ri.arready==1)):
+			m.d.sync += self.s_axi_ro.rid.eq(self.s_axi_ri.arid)
+		with m.If((self.s_axi_wi.awvalid==1) & (self.m_axi_wi.awready==1)):
+			m.d.sync += self.s_axi_wo.bid.eq(self.s_axi_wi.awid)
 
 		# clk and reset
 		m.d.comb += [
-- 
2.43.0


From 2ce5b4e876533eef7569515fed5cbd8f7ae3cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 18/40] fix: stop handing out addresses once all bursts were
 requested

---
 migen_src/beta_integration_fullaxi.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..25344c8 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -69,22 +69,17 @@ class BetaIntegrationFullAxi(Elaboratable):
 		read_end = Signal(1)
 		write_end = Signal(1)
 
+		# no further addresses once all bursts were requested
 		m.d.comb += [
-			read_end.eq(0),
-			write_end.eq(0),
+			read_end.eq(counter_read==196608),
+			write_end.eq(counter_write==131072),
 		]
 
 		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
-			with m.If(counter_read==196608):
-				m.d.comb += read_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_read.eq(counter_read + 1)
+			m.d.sync += counter_read.eq(counter_read + 1)
 
 		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
-			with m.If(counter_write==131072):
-				m.d.comb += write_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_write.eq(counter_write + 1)
+			m.d.sync += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
 		m.d.comb += [
-- 
2.43.0


From 21e2ad5f044f7a34bdf3efc2fa36656e260fefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 19/40] fix: list every port of a module in its port list

---
 migen_src/integration_1.py       | 6 +++++-
 migen_src/integration_2.py       | 2 +-
 migen_src/markers.py             | 3 ++-
 migen_src/micro_integration.py   | 4 ++++
 migen_src/predictor_p1_c4_px4.py | 2 +-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/migen_src/integration_1.py b/migen_src/integration_1.py
index 6e77bbc..3fd89c7 100644
--- a/migen_src/integration_1.py
+++ b/migen_src/integration_1.py
@@ -56,7 +56,11 @@ class Integration1(Elaboratable):
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.valid_in, self.valid_out] + \
 			[self.end_out, self.fend_out]
-			
+
+		# axi lite ports
+		if self.axi_lite:
+			self.ios += self.core_axi_lite.axi_ios
+
 	def elaborate(self, platform):
 
 		m = Module()
diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 7911a05..f198e7c 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -40,7 +40,7 @@ class Integration2(Elaboratable):
 			[pixel_in for pixel_in in self.pixels_in] + \
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.latch_output, self.nready] + \
-			[self.valid_in, self.valid_out] + \
+			[self.valid_in, self.valid_out, self.out_end] + \
 			[self.integration_1.fend_out]
 			
 	def elaborate(self, platform):
diff --git a/migen_src/markers.py b/migen_src/markers.py
index f093834..2d825c5 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -51,7 +51,8 @@ class Markers(Elaboratable):
         self.ios = \
             [self.valid_in, self.valid_out, self.o_busy, self.i_busy] + \
             [self.data_out, self.data_in] + \
-            [self.end_in, self.end_out]
+            [self.end_in, self.end_out] + \
+            [self.force_end_in]
 
     def elaborate(self, platform):
 
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index bbdea2a..be0c231 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -51,6 +51,10 @@ class MicroIntegration(Elaboratable):
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.data_out, self.busy_in] + \
 			[self.pixel_in, self.nready]
+
+		# axi lite ports
+		if self.config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/predictor_p1_c4_px4.py b/migen_src/predictor_p1_c4_px4.py
index 210aea7..d555f3d 100644
--- a/migen_src/predictor_p1_c4_px4.py
+++ b/migen_src/predictor_p1_c4_px4.py
@@ -83,7 +83,7 @@ class PredictorP1C4Px4(Elaboratable):
 			[predic_out for predic_out in self.predics_out] + \
 			[pixel_out for pixel_out in self.pixels_out] + \
 			[pixel_in for pixel_in in self.pixels_in] + \
-			[self.valid_in, self.valid_out] + \
+			[self.valid_in, self.valid_out, self.new_row] + \
 			[self.end_in, self.end_out]
 
 	def elaborate(self, platform):
-- 
2.43.0


From 0a0b18f77dddcb0d01c73fc0481cba2981c3d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 20/40] fix: let the delayer wait for its input when the delay
 is two

---
 migen_src/delayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/delayer.py b/migen_src/delayer.py
index 46245cb..50f060f 100644
--- a/migen_src/delayer.py
+++ b/migen_src/delayer.py
@@ -26,7 +26,7 @@ class Delayer(Elaboratable):
 		with m.If(timer_start):
 			m.d.sync += self.timer.eq(self.timer - 1)
 		
-		m.d.sync += out_val.eq((self.timer == 0)| out_val)
+		m.d.sync += out_val.eq(((self.timer == 0) & timer_start) | out_val)
 		m.d.comb += self.out_sig.eq(out_val)
 
 		return m
-- 
2.43.0


From 09c62d46d55e806f8696348e7aa0602fb4db0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 21/40] fix: show the code table's last class, which get_ssss
 left out

---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..bab9647 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<=bit_depth; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From 19d8ea4682314892bb61a40c74063aebc2d4152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 22/40] fix: give both cached rows of the decoder room for all
 components

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..8e84aa4 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -665,7 +665,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From 5c2df5625f23edba75f39322ca2c8132644d2d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 23/40] fix: predict each component from its own left neighbour
 in the decoder

---
 liblj92/lj92.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 8e84aa4..0fef931 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -511,7 +511,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
@@ -551,16 +551,16 @@ static int parseScan(ljp* self) {
                           Px = lastrow[prev_colx + c];
                           break;
                         case 4:
-                          Px = left + lastrow[colx + c] - lastrow[prev_colx + c];
+                          Px = thisrow[prev_colx + c] + lastrow[colx + c] - lastrow[prev_colx + c];
                           break;
                         case 5:
-                          Px = left + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
+                          Px = thisrow[prev_colx + c] + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 6:
-                          Px = lastrow[colx + c] + ((left - lastrow[prev_colx + c]) >> 1);
+                          Px = lastrow[colx + c] + ((thisrow[prev_colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 7:
-                          Px = (left + lastrow[colx + c]) >> 1;
+                          Px = (thisrow[prev_colx + c] + lastrow[colx + c]) >> 1;
                           break;
                     }
                 }
-- 
2.43.0


From 3c81beb52b795a932fc23c6d4bf3c0541127ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 24/40] fix: never look beyond the end of the linearization
 table

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 0fef931..9e3eca0 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -425,9 +425,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -439,9 +440,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -464,7 +466,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -484,7 +486,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -571,7 +573,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From 036b57f5d54d20678f418df4e39666b5f5a1dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 25/40] fix: read no bytes beyond the end of the data while
 decoding

---
 liblj92/lj92.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 9e3eca0..bc5ec98 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -344,11 +344,10 @@ inline static int nextdiff(ljp* self) {
     int cnt = self->cnt;
     int huffbits = self->huffbits;
     int ix = self->ix;
-    int next;
     while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
+        // Zeros follow the end of the data
+        int one = ix < self->datalen ? self->data[ix] : 0;
+        int two = ix+1 < self->datalen ? self->data[ix+1] : 0;
         b = (b<<16)|(one<<8)|two;
         cnt += 16;
         ix += 2;
@@ -367,9 +366,9 @@ inline static int nextdiff(ljp* self) {
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
     while (cnt < t) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
+        // Zeros follow the end of the data
+        int one = ix < self->datalen ? self->data[ix] : 0;
+        int two = ix+1 < self->datalen ? self->data[ix+1] : 0;
         b = (b<<16)|(one<<8)|two;
         cnt += 16;
         ix += 2;
-- 
2.43.0


From d888d1d820d9cc3a25c916b0677a1fe6cb68a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 26/40] fix: shift by no negative count for a difference of
 class 0

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index bc5ec98..502f892 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -379,7 +379,7 @@ inline static int nextdiff(ljp* self) {
     }
     cnt -= t;
     int diff = b >> cnt;
-    int vt = 1<<(t-1);
+    int vt = t>0?(1<<(t-1)):0;
     if (diff < vt) {
         vt = (-1 << t) + 1;
         diff += vt;
-- 
2.43.0


From 89b679802b90f1f5e8ec90d0cdacb6f6b4650d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 27/40] fix: code differences modulo 65536, class 16 without
 value bits

---
 liblj92/lj92.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 502f892..a6ed3aa 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
@@ -255,6 +255,7 @@ static int parseHuff(ljp* self) {
             continue;
         }
         hcode = huffvals[hv];
+        if (hcode > 16) return ret; // No such difference class
         hufflut[i] = hcode<<8 | bitsused;
         //printf("%d %d %d\n",i,bitsused,hcode);
         i++;
@@ -365,6 +366,12 @@ inline static int nextdiff(ljp* self) {
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
+    if (t == 16) { // No bits follow, the difference is 32768
+        self->b = b;
+        self->cnt = cnt;
+        self->ix = ix;
+        return 32768;
+    }
     while (cnt < t) {
         // Zeros follow the end of the data
         int one = ix < self->datalen ? self->data[ix] : 0;
@@ -768,7 +775,7 @@ int frequencyScan(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff; // Differences are modulo 65536
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         self->hist[ssss]++;
@@ -1058,7 +1065,7 @@ int writeBody(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff; // Differences are modulo 65536
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
@@ -1067,6 +1074,7 @@ int writeBody(lje* self) {
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss==16) ssss = 0; // Always -32768, no bits follow
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
-- 
2.43.0


From e6f668245db41acf589f2e12d57ab82713a19eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 28/40] fix: accept a scan that ends with the data, report one
 that is cut short

---
 liblj92/lj92.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index a6ed3aa..3ac21d8 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -402,6 +402,11 @@ inline static int nextdiff(ljp* self) {
     return diff;
 }
 
+// More bits were taken than the data has
+static int overrun(ljp* self) {
+    return self->ix - self->cnt/8 > self->datalen;
+}
+
 static int parsePred6(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     self->ix = self->scanstart;
@@ -438,7 +443,7 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
+    if (overrun(self)) return ret;
     --write;
     int rowcount = self->x-1;
     while (rowcount--) {
@@ -454,7 +459,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
+        if (overrun(self)) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
@@ -479,7 +484,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
+        if (overrun(self)) break;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -506,9 +511,9 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
+        if (overrun(self)) break;
     }
-    if (c >= pixels) ret = LJ92_ERROR_NONE;
+    if (c >= pixels && !overrun(self)) ret = LJ92_ERROR_NONE;
     return ret;
 }
 
@@ -596,7 +601,7 @@ static int parseScan(ljp* self) {
         out += self->x * self->components + self->skiplen;
     } // row
 
-    ret = LJ92_ERROR_NONE;
+    if (!overrun(self)) ret = LJ92_ERROR_NONE;
     return ret;
 }
 
-- 
2.43.0


From 1c7aaa4c65f7dd00e0c69a76a57443a274cbe3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 29/40] fix: write the decoded tile as writeLength and
 skipLength say

---
 liblj92/lj92.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 3ac21d8..edcb567 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -444,7 +444,10 @@ static int parsePred6(ljp* self) {
     thisrow[col++] = left;
     out[c++] = linear;
     if (overrun(self)) return ret;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
@@ -528,6 +531,7 @@ static int parseScan(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    int write = self->writelen;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -590,15 +594,17 @@ static int parseScan(ljp* self) {
                     linear = left;
 
                 thisrow[colx + c] = left;
-                out[colx + c] = linear; // HACK
+                *out++ = linear;
+                if (--write==0) {
+                    out += self->skiplen;
+                    write = self->writelen;
+                }
             } // c
         } // col
 
         u16* temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-
-        out += self->x * self->components + self->skiplen;
     } // row
 
     if (!overrun(self)) ret = LJ92_ERROR_NONE;
-- 
2.43.0


From 3f7f67d49ca42915799be5398d8fc9c30dfa91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 30/40] fix: gather the histogram from the delinearized samples
 that are encoded

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index edcb567..11e8dfc 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -764,14 +764,14 @@ int frequencyScan(lje* self) {
     int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
-        /* if (self->delinearize) {
+        if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
                 return LJ92_ERROR_TOO_WIDE;
             }
             p = self->delinearize[p];
         }
-        if (p>=maxval) {
+        /* if (p>=maxval) {
             free(rowcache);
             return LJ92_ERROR_TOO_WIDE;
         } */
-- 
2.43.0


From 91678285757415f534a20332085ad691fd54c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 31/40] fix: leave room for the last byte and the end marker
 when encoding

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 11e8dfc..bd0c92a 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -1105,7 +1105,7 @@ int writeBody(lje* self) {
             huffbits -= usebits;
             huffenc &= (1<<huffbits)-1;
             if (nextbits==0) {
-                if(w >= self->encodedLength - 1)
+                if(w >= self->encodedLength - 5) // the last byte and EOI follow
                 {
                     free(rowcache);
                     return LJ92_ERROR_ENCODER;
@@ -1127,7 +1127,7 @@ int writeBody(lje* self) {
             ssss -= usebits;
             diff &= (1<<ssss)-1;
             if (nextbits==0) {
-                if(w >= self->encodedLength - 1)
+                if(w >= self->encodedLength - 5) // the last byte and EOI follow
                 {
                     free(rowcache);
                     return LJ92_ERROR_ENCODER;
-- 
2.43.0


From 02c71f001bcd6a1f8320b6c7c4b157ed3bc00fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 32/40] fix: liblj92 looks for markers inside the data only

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index bd0c92a..1b08e5d 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -74,7 +74,7 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
     ix += 2;
-- 
2.43.0


From d4dc7ba59dca283896c6ba5ee2c8ad2b6470f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 33/40] fix: liblj92 reads a code table inside its segment only
 and leaves the data as they are

---
 liblj92/lj92.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 1b08e5d..467e2bd 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -89,9 +89,10 @@ static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
     u8* bits = &huffhead[2];
-    bits[0] = 0; // Because table starts from 1
+    if (self->ix+19 > self->datalen) return ret;
     int hufflen = BEH(huffhead[0]);
     if ((self->ix + hufflen) >= self->datalen) return ret;
+    if (hufflen < 19) return ret;
 #ifdef SLOW_HUFF
     u8* huffval = calloc(hufflen - 19,sizeof(u8));
     if (huffval == NULL) return LJ92_ERROR_NO_MEMORY;
@@ -254,6 +255,7 @@ static int parseHuff(ljp* self) {
 #endif
             continue;
         }
+        if (19+hv >= hufflen) return ret; // A code without a value
         hcode = huffvals[hv];
         if (hcode > 16) return ret; // No such difference class
         hufflut[i] = hcode<<8 | bitsused;
-- 
2.43.0


From 170fe4b17f0041f792d051ac620bf54f7c410304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 34/40] fix: liblj92 clears the code table's unused entries and
 frees a table that is replaced

---
 liblj92/lj92.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 467e2bd..9663c09 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -225,9 +225,10 @@ static int parseHuff(ljp* self) {
     }
     self->huffbits = maxbits;
     /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
-    if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
+    free(self->hufflut);
+    u16* hufflut = calloc(1<<maxbits, sizeof(u16));
     self->hufflut = hufflut;
+    if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
     int i = 0;
     int hv = 0;
     int rv = 0;
-- 
2.43.0


From ed9274efc11d32319f10a8392e62123e95278876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 35/40] fix: liblj92 reads the frame header inside the data
 only and refuses frames without samples

---
 liblj92/lj92.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 9663c09..5858332 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -270,11 +270,13 @@ static int parseHuff(ljp* self) {
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    if (self->ix+7 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
     self->components = self->data[self->ix + 7];
+    if (self->x == 0 || self->y == 0 || self->components == 0) return LJ92_ERROR_CORRUPT;
+    if (self->bits < 1 || self->bits > 16) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     return LJ92_ERROR_NONE;
 }
-- 
2.43.0


From 8be0ed108b6ac0e1e4f96bb6b56e7028801104dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:51 +0000
Subject: [PATCH 36/40] fix: liblj92 reads other segments' lengths inside the
 data only

---
 liblj92/lj92.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 5858332..d625103 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -282,6 +282,7 @@ static int parseSof3(ljp* self) {
 }
 
 static int parseBlock(ljp* self) {
+    if (self->ix+1 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
-- 
2.43.0


From d418f19dc8d901bd3fed25ba873e553436ea153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:51 +0000
Subject: [PATCH 37/40] fix: liblj92 refuses a scan without frame or code table

---
 liblj92/lj92.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index d625103..56e3f58 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -632,6 +632,10 @@ static int parseImage(ljp* self) {
         else if (nextMarker == 0xda) {
             self->scanstart = self->ix;
             ret = LJ92_ERROR_NONE;
+#ifndef SLOW_HUFF
+            if (self->hufflut == NULL) ret = LJ92_ERROR_CORRUPT;
+#endif
+            if (self->components == 0) ret = LJ92_ERROR_CORRUPT;
             break;
         } else if (nextMarker == -1) {
             ret = LJ92_ERROR_CORRUPT;
-- 
2.43.0


From 2503143ad4bff1721035e748a59e267d6ecc1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:51 +0000
Subject: [PATCH 38/40] fix: liblj92 reads the scan header inside the data only

---
 liblj92/lj92.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 56e3f58..cc75fc4 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -530,7 +530,9 @@ static int parseScan(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     memset(self->sssshist,0,sizeof(self->sssshist));
     self->ix = self->scanstart;
+    if (self->ix+2 >= self->datalen) return ret;
     int compcount = self->data[self->ix+2];
+    if (self->ix+3+2*compcount >= self->datalen) return ret;
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
     if (pred==6 && self->components==1) return parsePred6(self); // Fast path
-- 
2.43.0


From 07e3b7d4c1fa138fcf5104293b23b633e37bda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:12 +0000
Subject: [PATCH 39/40] fix: liblj92 refuses a file that ends before its scan

---
 liblj92/lj92.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index cc75fc4..8d1f8cd 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -629,9 +629,10 @@ static int parseImage(ljp* self) {
             ret = parseSof3(self);
         else if (nextMarker == 0xfe)// Comment
             ret = parseBlock(self);
-        else if (nextMarker == 0xd9) // End of image
+        else if (nextMarker == 0xd9) { // End of image
+            ret = LJ92_ERROR_CORRUPT; // without a scan
             break;
-        else if (nextMarker == 0xda) {
+        } else if (nextMarker == 0xda) {
             self->scanstart = self->ix;
             ret = LJ92_ERROR_NONE;
 #ifndef SLOW_HUFF
-- 
2.43.0


From ab5e40253ad18b762abfd8881e2f7889a0c3eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:21 +0000
Subject: [PATCH 40/40] fix: liblj92 goes on behind a code table instead of
 inside it

---
 liblj92/lj92.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 8d1f8cd..fe58050 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -264,6 +264,7 @@ static int parseHuff(ljp* self) {
         i++;
         rv++;
     }
+    self->ix += hufflen;
     ret = LJ92_ERROR_NONE;
 #endif
     return ret;
-- 
2.43.0

