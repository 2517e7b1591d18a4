From 5ca290a1d53288ab75b2d367fbe968fd75cd44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 01/58] fix: decode CYC packets that use all 64 bits of the
 cycle counter

The encoder accepts any 64-bit CYC payload but the decoder rejected the
ten-byte form with -pte_bad_packet, even when the value fits into 64 bit.
---
 libipt/src/pt_packet.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_packet.c b/libipt/src/pt_packet.c
index a10d052..1328b23 100644
--- a/libipt/src/pt_packet.c
+++ b/libipt/src/pt_packet.c
@@ -419,13 +419,17 @@ int pt_pkt_read_cyc(struct pt_packet_cyc *packet, const uint8_t *pos,
 		ext = bits & pt_opm_cycx_ext;
 
 		bits >>= pt_opm_cycx_shr;
-		bits <<= shl;
 
-		shl += (8 - pt_opm_cycx_shr);
-		if (sizeof(value) * 8 < shl)
+		/* The value must fit into 64 bit. */
+		if (sizeof(value) * 8 <= shl)
+			return -pte_bad_packet;
+
+		if (bits > (UINT64_MAX >> shl))
 			return -pte_bad_packet;
 
-		value |= bits;
+		value |= bits << shl;
+
+		shl += (8 - pt_opm_cycx_shr);
 	}
 
 	packet->value = value;
-- 
2.43.0


From babbceba20a4c91e2ad187131dc5fa309ff9cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 02/58] fix: do not advance beyond the trace buffer when
 skipping a corrupt TMA

The SKZ84 workaround skips the bogus byte following a corrupt TMA without
checking that it lies inside the trace buffer.
---
 libipt/src/pt_packet_decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..50231ae 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -520,6 +520,9 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
 
+			if (decoder->config.end < decoder->pos + size)
+				return -pte_eos;
+
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
 		}
-- 
2.43.0


From 6aa1294bc6d0e0ca000fae5b0dd9e20743d9495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 03/58] fix: reject packets the encoder cannot express, as
 documented

pt_enc_next() is documented to return -pte_bad_packet for invalid payload.
It encoded TNT-8 packets without bits as an extended opcode, let stray
payload bits override the TNT-8 bit size, and reported other invalid
payload as -pte_invalid or -pte_internal.
---
 libipt/src/pt_encoder.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..b7eace9 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -187,7 +187,7 @@ static int pt_ipc_size(enum pt_ip_compression ipc)
 		return pt_pl_ip_full_size;
 	}
 
-	return -pte_invalid;
+	return -pte_bad_packet;
 }
 
 /* Encode an integer value.
@@ -215,7 +215,7 @@ static uint8_t *pt_encode_int(uint8_t *pos, uint64_t val, int size)
  *
  * Returns -pte_eos if there is not enough space.
  * Returns -pte_internal if \@encoder or \@packet is NULL.
- * Returns -pte_invalid if \@packet.ipc is not valid.
+ * Returns -pte_bad_packet if \@packet.ipc is not valid.
  */
 static int pt_encode_ip(struct pt_encoder *encoder, enum pt_opcode op,
 			const struct pt_packet_ip *packet)
@@ -325,7 +325,12 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 	case ppt_tnt_8: {
 		uint8_t opc, stop;
 
-		if (packet->payload.tnt.bit_size >= 7)
+		if (!packet->payload.tnt.bit_size ||
+		    (packet->payload.tnt.bit_size >= 7))
+			return -pte_bad_packet;
+
+		if (packet->payload.tnt.payload >>
+		    packet->payload.tnt.bit_size)
 			return -pte_bad_packet;
 
 		errcode = pt_reserve(encoder, ptps_tnt_8);
@@ -350,13 +355,13 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 			return errcode;
 
 		if (packet->payload.tnt.bit_size >= pt_pl_tnt_64_bits)
-			return -pte_invalid;
+			return -pte_bad_packet;
 
 		stop = 1ull << packet->payload.tnt.bit_size;
 		tnt = packet->payload.tnt.payload;
 
 		if (tnt & ~(stop - 1))
-			return -pte_invalid;
+			return -pte_bad_packet;
 
 		*pos++ = pt_opc_ext;
 		*pos++ = pt_ext_tnt_64;
@@ -664,7 +669,7 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 
 		size = pt_ptw_size(plc);
 		if (size < 0)
-			return size;
+			return -pte_bad_packet;
 
 		errcode = pt_reserve(encoder,
 				     (unsigned int) (pt_opcs_ptw + size));
-- 
2.43.0


From 27795ef0d99bdb3958dcda05ac3949037cb71ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 04/58] fix: synchronize backward past bytes that look like PSB
 payload

pt_sync_backward() could return the sync point it started from when that was
preceded by bytes that look like PSB payload.  Repeated calls did not make
progress.
---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..40c9256 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* If the PSB at @start is preceded by bytes that look like PSB
+		 * payload, we may find that one again.  Ignore it.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From 043a39cbb42b70fd4f17b23195d82cbd00e4db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 05/58] fix: report end of stream after a PSB at the very end
 of the trace

pt_pkt_sync_forward() failed with -pte_internal.
---
 libipt/src/pt_packet_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 50231ae..b162d46 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -107,6 +107,12 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 	if (pos < begin)
 		return -pte_internal;
 
+	/* There is nothing left when searching beyond a sync point at the very
+	 * end of the trace buffer.
+	 */
+	if (decoder->config.end < pos)
+		return -pte_eos;
+
 	/* Start a bit earlier so we find PSB that have been partially consumed
 	 * by a preceding packet.
 	 */
-- 
2.43.0


From 90c22600f92e30e0c91fdb4eb41ae4c6efd93039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 06/58] fix: report the status when synchronizing backward

The query and block decoders returned zero for a successful backward
synchronization and thus failed to indicate pending events or disabled tracing.
The instruction flow decoder started off as if tracing was enabled.
---
 libipt/src/pt_block_decoder.c | 12 ++++++------
 libipt/src/pt_query_decoder.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a02378b..5a03c23 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -508,7 +508,7 @@ int pt_blk_sync_forward(struct pt_block_decoder *decoder)
 int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
@@ -542,13 +542,13 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 
 		sync = pos;
 
-		errcode = pt_blk_start(decoder);
-		if (errcode < 0) {
+		status = pt_blk_start(decoder);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -561,7 +561,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 			break;
 	}
 
-	return 0;
+	return status;
 }
 
 int pt_blk_sync_set(struct pt_block_decoder *decoder, uint64_t offset)
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..8e7b473 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,7 +297,7 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
@@ -331,13 +331,13 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 
 		sync = pos;
 
-		errcode = pt_qry_start(decoder, ip);
-		if (errcode < 0) {
+		status = pt_qry_start(decoder, ip);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -350,7 +350,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 			break;
 	}
 
-	return 0;
+	return status;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0


From 12713ee96358c434f863d03e417d3addfad9a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 07/58] fix: preserve split sections when copying an image

pt_image_copy() added the entire underlying file section for sections that had
been split or shrunk, at the wrong offset, hiding other sections.
---
 libipt/src/pt_image.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..725bc92 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,26 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add the part of @section starting at @offset and spanning @size bytes.
+ *
+ * Returns zero on success, a negative error code otherwise.
+ */
+static int pt_image_add_part(struct pt_image *image,
+			     struct pt_section *section,
+			     const struct pt_asid *asid, uint64_t vaddr,
+			     uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +250,16 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	if (!image || !section)
+		return -pte_internal;
+
+	return pt_image_add_part(image, section, asid, vaddr, 0ull,
+				 pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -337,12 +352,18 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 
 	ignored = 0;
 	for (list = src->sections; list; list = list->next) {
+		const struct pt_mapped_section *msec;
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		/* Sections that have been split only cover a part of their
+		 * underlying file section.
+		 */
+		msec = &list->section;
+		errcode = pt_image_add_part(image, pt_msec_section(msec),
+					    pt_msec_asid(msec),
+					    pt_msec_begin(msec),
+					    pt_msec_offset(msec),
+					    pt_msec_size(msec), list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From beee343cb004fd8659bcaa3275e48ac5af2a81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 08/58] fix: report unknown section identifiers beyond 16 bits
 as such

pt_iscache_read() and pt_image_add_cached() failed with -pte_internal instead of
-pte_bad_image.
---
 libipt/src/pt_image_section_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..afb97ee 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -767,7 +767,7 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 	isid -= 1;
 	if (isid > UINT16_MAX)
-		return -pte_internal;
+		return -pte_bad_image;
 
 	index = (uint16_t) isid;
 
-- 
2.43.0


From 6e390ae04c25b189c64c990907e69b4b0a714daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 09/58] fix: accept MODE.EXEC with an interrupt flag change
 before TIP.PGD

A MODE.EXEC that is followed by TIP.PGD may result in an iflags event or,
if it did not change anything, in no event at all.  Both were handled for
TIP and TIP.PGE but resulted in -pte_bad_context for TIP.PGD.
---
 libipt/src/pt_event_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..d7f3343 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3140,6 +3140,7 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		fallthrough;
 	case ptev_exec_mode:
+	case ptev_iflags:
 		/* The MODE.EXEC might come with a standalone TIP.PGD or with a
 		 * FUP + TIP.PGD pair.  In both cases, we won't really reach
 		 * the IP in the TIP.PGD's payload since tracing is disabled as
@@ -3164,6 +3165,11 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 		ev->ip_suppressed = 1;
 		break;
 
+	case ptev_ignore:
+		decoder->event = NULL;
+
+		return pt_evt_decode_tip_pgd(decoder, packet);
+
 	default:
 		errcode = -pte_bad_context;
 		break;
-- 
2.43.0


From f881b5924fdafc75cd7f9adec65644fe2b5e536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 10/58] fix: accept a precise TRIG IP at an instruction that
 another event bound to

If another event, e.g. ptwrite, bound to an instruction and is followed by a
TRIG event with the same IP on a later visit, the instruction flow decoder
failed with -pte_internal when proceeding past the instruction.
---
 libipt/src/pt_insn_decoder.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 762a2a2..30466dd 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -555,11 +555,12 @@ static int pt_insn_update_trig(struct pt_insn_decoder *decoder, uint64_t ip)
 		struct pt_event *ev;
 
 		ev = &decoder->event;
-		if ((ev->type == ptev_trig) && (ev->variant.trig.ip == ip)) {
-			/* We should not have proceeded past the TRIG IP. */
-			if (!ev->variant.trig.icnt)
-				return -pte_internal;
-
+		/* If the TRIG's IP is already precise, it refers to a later
+		 * visit.  This may happen if another event bound to the
+		 * instruction at that IP.
+		 */
+		if ((ev->type == ptev_trig) && (ev->variant.trig.ip == ip) &&
+		    ev->variant.trig.icnt) {
 			ev->variant.trig.icnt -= 1;
 			ev->variant.trig.ip = decoder->ip;
 		}
-- 
2.43.0


From b406e728a15b655b0b9ef8c7d14d04077e449dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 11/58] fix: do not restart TRIG instruction counting at
 synchronous VMCS events

A synchronous VMCS event does not provide an IP, so it cannot provide the
anchor IP for a subsequent TRIG packet.  The instruction flow decoder
restarted its instruction count and placed the TRIG too late or failed.
---
 libipt/src/pt_insn_decoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 30466dd..8bdc759 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -1978,7 +1978,9 @@ static int pt_insn_process_vmcs(struct pt_insn_decoder *decoder)
 		decoder->asid.vmcs = vmcs;
 	}
 
-	if (!decoder->event.ip_suppressed) {
+	/* A synchronous VMCS event does not provide an IP. */
+	if ((decoder->event.type == ptev_async_vmcs) &&
+	    !decoder->event.ip_suppressed) {
 		/* This event provides a TRIG anchor IP. */
 		decoder->has_icnt = 1;
 		decoder->icnt = 0u;
-- 
2.43.0


From b1b3449a093bde69fbb1fd4769efe61dfb26cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 12/58] fix: do not reject a TRIG event with a precise IP ahead
 of the current IP

The block decoder returned -pte_bad_packet for a TRIG packet with zero
instruction count followed by a FUP unless that FUP's IP was the current IP.
---
 libipt/src/pt_block_decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 5a03c23..2e8cc58 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3813,9 +3813,9 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		if (ev->variant.trig.icnt)
 			break;
 
-		/* If this is the TRIG location, it better be right here. */
+		/* The TRIG location may still be ahead of us. */
 		if (ev->variant.trig.ip != decoder->ip)
-			return -pte_bad_packet;
+			break;
 
 		return pt_blk_status(decoder, pts_event_pending);
 	}
-- 
2.43.0


From 52d17b9e824bf65576358b2222d9ba01c5d95614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 13/58] fix: correct the TRIG check when tracing is disabled

With tracing disabled, the TRIG IP must be precise, i.e. the remaining
instruction count must be zero.  The check in the block decoder was inverted.
---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2e8cc58..5a9b684 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1568,7 +1568,7 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	/* With tracing disabled, the TRIG IP must already be precise. */
 	if (!decoder->enabled) {
 		/* The event decoder must have guaranteed that. */
-		if (!ev->variant.trig.icnt)
+		if (ev->variant.trig.icnt)
 			return -pte_internal;
 
 		return 1;
-- 
2.43.0


From 119aff8f8c650fee61a5ba9d8986ac13cde43a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 14/58] fix: compute the resume IP for sync disables at MOV CR3
 in the block decoder

The block decoder left the IP at the MOV CR3 instruction to which a disabled
event bound.  If tracing resumed after that instruction, the enabled event was
not marked as resumed, different from the instruction flow decoder.  If tracing
was enabled at that instruction again, it wrongly was.
---
 libipt/src/pt_block_decoder.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 5a9b684..bb43d30 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1242,17 +1242,27 @@ static int pt_blk_proceed_to_disabled(struct pt_block_decoder *decoder,
  * On a synchronous disable, @decoder->ip still points to the instruction to
  * which the event bound.  That's not where we expect tracing to resume.
  *
+ * If we can determine the next IP, e.g. for MOV CR3, that's where we expect
+ * tracing to resume.
+ *
  * For calls, a fair assumption is that tracing resumes after returning from the
  * called function.  For other types of instructions, we simply don't know.
  *
  * Returns zero on success, a negative pt_error_code otherwise.
  */
 static int pt_blk_set_disable_resume_ip(struct pt_block_decoder *decoder,
-					const struct pt_insn *insn)
+					const struct pt_insn *insn,
+					const struct pt_insn_ext *iext)
 {
+	int status;
+
 	if (!decoder || !insn)
 		return -pte_internal;
 
+	status = pt_insn_next_ip(&decoder->ip, insn, iext);
+	if (status != -pte_bad_query)
+		return status;
+
 	switch (insn->iclass) {
 	case ptic_call:
 	case ptic_far_call:
@@ -1782,7 +1792,16 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 			if (status != -pte_bad_query)
 				return status;
 
-			status = pt_blk_set_disable_resume_ip(decoder, &insn);
+			status = pt_blk_set_disable_resume_ip(decoder, &insn,
+							      &iext);
+			if (status < 0)
+				return status;
+		} else if (ev->ip_suppressed) {
+			/* We reached the instruction to which the event binds
+			 * but did not proceed past it.
+			 */
+			status = pt_blk_set_disable_resume_ip(decoder, &insn,
+							      &iext);
 			if (status < 0)
 				return status;
 		}
@@ -3300,8 +3319,15 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 
 		/* A sync disable may bind to a CR3 changing instruction. */
 		if (ev->ip_suppressed &&
-		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext))
+		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext)) {
+			status = pt_blk_set_disable_resume_ip(decoder,
+							      &decoder->insn,
+							      &decoder->iext);
+			if (status < 0)
+				return status;
+
 			return pt_blk_status(decoder, pts_event_pending);
+		}
 
 		/* Or it binds to the next branch that would require trace.
 		 *
@@ -3316,7 +3342,8 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 				return status;
 
 			status = pt_blk_set_disable_resume_ip(decoder,
-							      &decoder->insn);
+							      &decoder->insn,
+							      &decoder->iext);
 			if (status < 0)
 				return status;
 
-- 
2.43.0


From b16c4fca7bc838792296ffa7d414dc04d2ca2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 15/58] fix: report the end of the trace, or the decode error,
 when out of events

If the block decoder needed trace to proceed and there was none left, it
returned -pte_bad_query instead of -pte_eos.  Deferred errors were similarly
reported as -pte_bad_query.
---
 libipt/src/pt_block_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index bb43d30..694fc11 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -338,6 +338,10 @@ static int pt_blk_proceed_indirect(struct pt_block_decoder *decoder)
 	if (!decoder)
 		return -pte_internal;
 
+	/* We may not have an event, e.g. if we ran out of trace. */
+	if (decoder->status < 0)
+		return decoder->status;
+
 	ev = &decoder->event;
 	switch (ev->type) {
 	case ptev_tip: {
@@ -405,6 +409,10 @@ static int pt_blk_cond_branch(struct pt_block_decoder *decoder)
 	if (!decoder)
 		return -pte_internal;
 
+	/* We may not have an event, e.g. if we ran out of trace. */
+	if (decoder->status < 0)
+		return decoder->status;
+
 	ev = &decoder->event;
 	if (ev->type != ptev_tnt)
 		return -pte_bad_query;
-- 
2.43.0


From 5444aa40e1f7d893af708143fb07db979be337be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 16/58] fix: do not recurse for each jump in a block

A loop of direct backward jumps or calls (e.g. JMP .) that is cached in the
block cache recursed once per instruction, up to 65535 times, and overflowed
the stack.
---
 libipt/src/pt_block_decoder.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 694fc11..687fb96 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2636,6 +2636,10 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 	if (!decoder || !block)
 		return -pte_internal;
 
+	/* We may take one step per instruction in @block so we must not use
+	 * recursion.
+	 */
+next:
 	offset = pt_msec_unmap(msec, decoder->ip);
 	status = pt_bcache_lookup(&bce, bcache, offset);
 	if (status < 0)
@@ -2725,8 +2729,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		 */
 		block->iclass = ptic_unknown;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		goto next;
 
 	case ptbq_cond:
 		/* We're at a conditional branch. */
@@ -2849,8 +2852,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		if (!pt_blk_is_in_section(msec, decoder->ip))
 			return 0;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		goto next;
 	}
 
 	case ptbq_ind_call: {
-- 
2.43.0


From 546aa0019830817e0bef98f334f0e194997a31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 17/58] fix: end the block as requested on the way to an event

When proceeding to a ptwrite, iret, vmentry, or uiret event with IP, the block
decoder appended that instruction to a block that should have ended with the
preceding call or jump.  Similarly when counting instructions to a TRIG event.
---
 libipt/src/pt_block_decoder.c | 48 +++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 687fb96..b00a936 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1082,6 +1082,30 @@ static int pt_blk_proceed_to_ip(struct pt_block_decoder *decoder,
 	}
 }
 
+/* Check whether the user asked us to end @block after its last instruction.
+ *
+ * Returns a positive integer if @block must not be extended.
+ * Returns zero if @block may be extended.
+ * Returns a negative error code otherwise.
+ */
+static int pt_blk_end_requested(const struct pt_block_decoder *decoder,
+				const struct pt_block *block)
+{
+	if (!decoder || !block)
+		return -pte_internal;
+
+	switch (block->iclass) {
+	case ptic_call:
+		return decoder->flags.variant.block.end_on_call;
+
+	case ptic_jump:
+		return decoder->flags.variant.block.end_on_jump;
+
+	default:
+		return 0;
+	}
+}
+
 static int pt_insn_skl014(const struct pt_insn *insn,
 			  const struct pt_insn_ext *iext)
 {
@@ -1333,6 +1357,11 @@ static int pt_blk_proceed_to_ptwrite(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The way to @decoder->ip may have ended @block. */
+	status = pt_blk_end_requested(decoder, block);
+	if (status != 0)
+		return (status < 0) ? status : 0;
+
 	/* We reached the PTWRITE instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1391,6 +1420,11 @@ static int pt_blk_proceed_to_iret(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The way to @decoder->ip may have ended @block. */
+	status = pt_blk_end_requested(decoder, block);
+	if (status != 0)
+		return (status < 0) ? status : 0;
+
 	/* We reached the IRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1449,6 +1483,11 @@ static int pt_blk_proceed_to_vmentry(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The way to @decoder->ip may have ended @block. */
+	status = pt_blk_end_requested(decoder, block);
+	if (status != 0)
+		return (status < 0) ? status : 0;
+
 	/* We reached the vmentry instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1507,6 +1546,11 @@ static int pt_blk_proceed_to_uiret(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The way to @decoder->ip may have ended @block. */
+	status = pt_blk_end_requested(decoder, block);
+	if (status != 0)
+		return (status < 0) ? status : 0;
+
 	/* We reached the UIRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1610,6 +1654,10 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	 * way when @block runs full.
 	 */
 	while (ev->variant.trig.icnt) {
+		status = pt_blk_end_requested(decoder, block);
+		if (status != 0)
+			return (status < 0) ? status : 0;
+
 		status = pt_blk_proceed_one_insn(decoder, block, insn, iext);
 		if (status <= 0)
 			return status;
-- 
2.43.0


From 4bbd4d42b283798b3f62d49acdc4ce1653412d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 18/58] fix: report the end of the trace when looking for a
 deferred TIP

If the trace ends before the TIP that is hidden behind an in-progress TNT, the
block decoder returned -pte_bad_query.
---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index b00a936..779463c 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -377,7 +377,7 @@ static int pt_blk_proceed_indirect(struct pt_block_decoder *decoder)
 			decoder->evdec = evdec;
 			*ev = tnt;
 
-			return -pte_bad_query;
+			return (errcode < 0) ? errcode : -pte_bad_query;
 		}
 
 		decoder->ip = ev->variant.tip.ip;
-- 
2.43.0


From d614572951a655e477b6efc174615b51923bd046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 19/58] fix: do not change the time and report bad queries when
 refusing a query

A refused pt_qry_cond_branch() set the time to that of the next event and a
repeatedly refused pt_qry_indirect_branch() reported -pte_overflow once the TNT
cache was full.
---
 libipt/src/pt_query_decoder.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 8e7b473..ca3d72e 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -433,6 +433,7 @@ int pt_qry_cond_branch(struct pt_query_decoder *decoder, int *taken)
 
 	query = pt_tnt_cache_query(&decoder->tnt);
 	if (query < 0) {
+		struct pt_time time;
 		int errcode;
 
 		if (query != -pte_bad_query)
@@ -443,7 +444,7 @@ int pt_qry_cond_branch(struct pt_query_decoder *decoder, int *taken)
 		 *
 		 * Preserve the time at the TNT event.
 		 */
-		decoder->last_time = decoder->evdec.time;
+		time = decoder->evdec.time;
 
 		errcode = pt_qry_cache_tnt(decoder);
 		if (errcode < 0)
@@ -465,6 +466,8 @@ int pt_qry_cond_branch(struct pt_query_decoder *decoder, int *taken)
 
 			return query;
 		}
+
+		decoder->last_time = time;
 	}
 
 	*taken = query;
@@ -487,10 +490,15 @@ int pt_qry_indirect_branch(struct pt_query_decoder *decoder, uint64_t *addr)
 
 	ev = &decoder->event;
 	if (ev->type != ptev_tip) {
-		/* Fill our TNT cache if we have a TNT packet. */
+		/* Fill our TNT cache if we have a TNT packet.
+		 *
+		 * If the TNT does not fit, our user needs to use up cached TNT
+		 * bits before the next TIP.
+		 */
 		errcode = pt_qry_cache_tnt(decoder);
 		if (errcode < 0)
-			return errcode;
+			return (errcode == -pte_overflow) ? -pte_bad_query :
+				errcode;
 
 		/* Check again.  We may have fetched a new packet. */
 		if (ev->type != ptev_tip) {
-- 
2.43.0


From 1ea1072b276473491cb5475542721740dcf5d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 20/58] fix: libipt: track last IP across spurious packets
 after overflow

The FUP or TIP.PGD that are skipped to work around errata APL11, APL12, and
SKD010 still update the processor's last IP, relative to which subsequent IP
packets are compressed.
---
 libipt/src/pt_event_decoder.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index d7f3343..9d70b0b 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2013,6 +2013,14 @@ static int pt_evt_recover_ovf_disabled(struct pt_event_decoder *decoder,
 	ev->type = ptev_overflow;
 	ev->ip_suppressed = 1;
 
+	/* The disable's IP is not interesting but later IP packets may be
+	 * compressed relative to it.
+	 */
+	errcode = pt_last_ip_update_ip(&decoder->ip, &packet->payload.ip,
+				       pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	/* We use the decoder's original time for this event. */
 	errcode = pt_evt_event_time(ev, &decoder->time);
 	if (errcode < 0)
@@ -2121,6 +2129,17 @@ static int pt_evt_recover_ovf_at_offset(struct pt_event_decoder *decoder,
 			return errcode;
 	}
 
+	if (packet->type != ppt_fup)
+		return -pte_internal;
+
+	/* The FUP's IP is not interesting but later IP packets may be
+	 * compressed relative to it.
+	 */
+	errcode = pt_last_ip_update_ip(&decoder->ip, &packet->payload.ip,
+				       pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	decoder->event = ev = pt_evq_standalone(&decoder->evq);
 	if (!ev)
 		return -pte_internal;
-- 
2.43.0


From b101d76070758de879500300bc889dacab6bc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 21/58] fix: libipt: proceed to overflow if a postponed
 instruction's trace is lost

When the trace that is necessary for proceeding past an instruction, which had
been postponed to indicate an event, is lost in an overflow, the decoders got
stuck with -pte_bad_query or -pte_eos.  Continue with the overflow event.
---
 libipt/src/pt_block_decoder.c | 13 +++++++++++--
 libipt/src/pt_insn_decoder.c  | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 779463c..e4b63a3 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1793,8 +1793,17 @@ static int pt_blk_proceed_postponed_insn(struct pt_block_decoder *decoder)
 
 		status = pt_blk_proceed_with_trace(decoder, &decoder->insn,
 						   &decoder->iext);
-		if (status < 0)
-			return status;
+		if (status < 0) {
+			/* The trace for completing the instruction may have
+			 * been lost in an overflow.  We proceed at the IP, if
+			 * any, at which the overflow resolved.
+			 */
+			if (decoder->event.type != ptev_overflow)
+				return status;
+
+			if ((status != -pte_bad_query) && (status != -pte_eos))
+				return status;
+		}
 	}
 
 	return pt_blk_clear_postponed_insn(decoder);
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 8bdc759..5832773 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -869,8 +869,18 @@ static int pt_insn_proceed_postponed(struct pt_insn_decoder *decoder)
 		return pt_insn_clear_postponed(decoder);
 
 	status = pt_insn_proceed(decoder, &decoder->insn, &decoder->iext);
-	if (status < 0)
-		return status;
+	if (status < 0) {
+		/* The trace for completing the instruction may have been lost
+		 * in an overflow.  We proceed at the IP, if any, at which the
+		 * overflow resolved.
+		 */
+		if (!decoder->process_event ||
+		    (decoder->event.type != ptev_overflow))
+			return status;
+
+		if ((status != -pte_bad_query) && (status != -pte_eos))
+			return status;
+	}
 
 	return pt_insn_clear_postponed(decoder);
 }
-- 
2.43.0


From e1095871c064f7f6ead1056f111d4421c8b473fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 22/58] fix: apply the SKL168 workaround in the event decoder

The event decoder did not indicate PSB to calibration so pt_tcal_update_mtc()
never checked for dropped CYC packets.
---
 libipt/src/pt_event_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 9d70b0b..8dcaa64 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1309,6 +1309,10 @@ static int pt_evt_decode_psb(struct pt_event_decoder *decoder)
 	if (pt_evq_pending(&decoder->evq, UINT32_MAX))
 		return -pte_bad_context;
 
+	errcode = pt_tcal_update_psb(&decoder->tcal, pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	pt_last_ip_init(&decoder->ip);
 	decoder->enabled = 0;
 
-- 
2.43.0


From ac09d514d768af4130d5e89df51ef7b471dce033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 23/58] fix: count MTC and CYC packets dropped due to
 incomplete configuration

This is what intel-pt.h documents for the number of lost packets.
---
 libipt/src/pt_time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index 511f27c..2ebf66e 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -330,8 +330,10 @@ int pt_time_update_mtc(struct pt_time *time,
 	}
 
 	errcode = pt_time_ctc_fc(&tsc, ctc_delta, config);
-	if (errcode < 0)
+	if (errcode < 0) {
+		time->lost_mtc += 1;
 		return errcode;
+	}
 
 	base += tsc;
 	time->tsc = time->base = base;
@@ -426,8 +428,10 @@ int pt_time_update_cyc(struct pt_time *time,
 		int errcode;
 
 		errcode = pt_time_adjust_cyc(&cyc, time, config, fcr);
-		if (errcode < 0)
+		if (errcode < 0) {
+			time->lost_cyc += 1;
 			return errcode;
+		}
 	}
 
 	fc += (cyc * fcr) >> pt_tcal_fcr_shr;
-- 
2.43.0


From 5f11306133e2674d34c802f6650933d99b29035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 24/58] fix: libipt, block: end blocks at jumps if the block
 cache was filled without

A decoder that asks for ending blocks at near direct jumps did not end them if
the block cache had been filled by a decoder that does not ask for it or if the
block cache had been filled before the section was split.
---
 libipt/src/pt_block_decoder.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index e4b63a3..b7a8731 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2446,6 +2446,12 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *     postpone it to the next iteration.  Make sure to end the block if
 	 *     @decoder->flags.variant.block.end_on_call is set, though.
 	 *
+	 *   - at near direct jumps to be able to end the block
+	 *
+	 *     The block cache is shared with other decoders.  Even if @decoder's
+	 *     flags do not ask for ending a block at a near direct jump, other
+	 *     decoders' flags may.
+	 *
 	 *   - at near direct backwards jumps to detect section splits
 	 *
 	 *     In case the current section is split underneath us, we must take
@@ -2496,11 +2502,8 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 		    (iext.iclass == PTI_INST_JMPABS))
 			return -pte_internal;
 
-		if (iext.variant.branch.displacement < 0 ||
-		    decoder->flags.variant.block.end_on_jump)
-			return pt_blk_add_decode(bcache, ioff, insn.mode);
+		return pt_blk_add_decode(bcache, ioff, insn.mode);
 
-		fallthrough;
 	default:
 		if (!pt_blk_is_in_section(msec, nip) || block->truncated)
 			return pt_blk_add_decode(bcache, ioff, insn.mode);
-- 
2.43.0


From d9a42c1636ee6500009d7b1efe9bc253e9420b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 25/58] fix: libipt, block: handle instructions at cached
 decision points that get split

If the section is split after the block cache has been filled, or if it is mapped
differently by another decoder, the instruction at a cached decision point may
extend beyond the section.  It failed to decode if it was a taken conditional
branch and it was not provided in the block otherwise.
---
 libipt/src/pt_block_decoder.c | 42 ++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index b7a8731..90881a1 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2243,6 +2243,42 @@ static inline int pt_blk_is_in_section(const struct pt_mapped_section *msec,
 	return (begin <= ip && ip < end);
 }
 
+/* Check if the instruction at a decision point may reach out of @msec.
+ *
+ * The block cache entry @bce with the decision point at @ip may have been added
+ * while the section has been mapped in its entirety or it may have been added
+ * by another decoder.  In the former case, the section may have been split since
+ * and in the latter case, it may be mapped differently.
+ *
+ * We don't need to check entries that do not lead to a decision point or for
+ * which we decode the instruction at the decision point, anyway.
+ *
+ * Returns non-zero if it may.
+ * Returns zero otherwise.
+ */
+static inline int pt_blk_bce_is_truncated(struct pt_bcache_entry bce,
+					  const struct pt_mapped_section *msec,
+					  uint64_t ip)
+{
+	uint64_t size;
+
+	switch (pt_bce_qualifier(bce)) {
+	case ptbq_again:
+	case ptbq_decode:
+		return 0;
+
+	default:
+		break;
+	}
+
+	/* If we don't know the size, we assume the worst. */
+	size = bce.isize;
+	if (!size)
+		size = pt_max_insn_size;
+
+	return !pt_blk_is_in_section(msec, ip + (size - 1));
+}
+
 /* Insert a trampoline block cache entry.
  *
  * Add a trampoline block cache entry at @ip to continue at @nip, where @nip
@@ -2729,10 +2765,14 @@ next:
 	 * in the case of a near direct backward branch) we will detect all
 	 * section splits.
 	 *
+	 * The instruction at the decision point may be truncated by the split.
+	 * We'd need to provide it in @block.
+	 *
 	 * Switch to the slow path until we reach the end of this section.
 	 */
 	nip = decoder->ip + (uint64_t) (int64_t) bce.displacement;
-	if (!pt_blk_is_in_section(msec, nip))
+	if (!pt_blk_is_in_section(msec, nip) ||
+	    pt_blk_bce_is_truncated(bce, msec, nip))
 		return pt_blk_proceed_no_event_uncached(decoder, block);
 
 	/* We have a valid cache entry.  Let's first check if the way to the
-- 
2.43.0


From 68528632c355b2639a5c9256a9eab49463d4709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 26/58] fix: libipt, block: do not use block cache entries of a
 different execution mode

The block cache may be filled by a decoder that decodes the same memory in another
execution mode.  Its entries led to wrong blocks or to -pte_internal.
---
 libipt/src/pt_block_decoder.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 90881a1..e55ea66 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2558,8 +2558,13 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *
 	 * On our way back, we add a cache entry for this instruction based on
 	 * the cache entry of the succeeding instruction.
+	 *
+	 * We must not have switched execution modes.  This would require an
+	 * event and we're on the no-event flow.
+	 *
+	 * If the entry was added for a different execution mode, we replace it.
 	 */
-	if (!pt_bce_is_valid(bce)) {
+	if (!pt_bce_is_valid(bce) || (pt_bce_exec_mode(bce) != insn.mode)) {
 		/* If we exceeded the maximum number of allowed steps, we insert
 		 * a trampoline to the next instruction.
 		 *
@@ -2587,17 +2592,11 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 		 * likely, @block overflowed and we couldn't proceed past the
 		 * next instruction.
 		 */
-		if (!pt_bce_is_valid(bce))
+		if (!pt_bce_is_valid(bce) ||
+		    (pt_bce_exec_mode(bce) != insn.mode))
 			return 0;
 	}
 
-	/* We must not have switched execution modes.
-	 *
-	 * This would require an event and we're on the no-event flow.
-	 */
-	if (pt_bce_exec_mode(bce) != insn.mode)
-		return -pte_internal;
-
 	/* The decision point IP and the displacement from @insn.ip. */
 	dip = nip + (uint64_t) (int64_t) bce.displacement;
 	disp = (int64_t) (dip - insn.ip);
@@ -2741,8 +2740,13 @@ next:
 	if (status < 0)
 		return status;
 
-	/* If we don't find a valid cache entry, fill the cache. */
-	if (!pt_bce_is_valid(bce))
+	/* If we don't find a valid cache entry, fill the cache.
+	 *
+	 * We can't use entries that were added for a different execution mode.
+	 * We replace them, instead.
+	 */
+	if (!pt_bce_is_valid(bce) ||
+	    (pt_bce_exec_mode(bce) != decoder->mode))
 		return pt_blk_proceed_no_event_fill_cache(decoder, block,
 							  bcache, msec,
 							  bcache_fill_steps);
-- 
2.43.0


From df5fe8c3d3c9bdf7e0585e265e4150dce3f2fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 27/58] fix: libipt, insn, block: reject user events that are
 too small

The header promises -pte_invalid if the size argument is too small.  The
query decoder checks it; the instruction flow and block decoders did not.
---
 libipt/src/pt_block_decoder.c | 4 ++++
 libipt/src/pt_insn_decoder.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index e55ea66..9e4ce6f 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -39,6 +39,7 @@
 #include "intel-pt.h"
 
 #include <string.h>
+#include <stddef.h>
 #include <stdlib.h>
 
 
@@ -4282,6 +4283,9 @@ int pt_blk_event(struct pt_block_decoder *decoder, struct pt_event *uevent,
 	if (!decoder || !uevent)
 		return -pte_invalid;
 
+	if (size < offsetof(struct pt_event, variant))
+		return -pte_invalid;
+
 	/* Report any deferred event decode errors. */
 	errcode = decoder->status;
 	if (errcode < 0)
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 5832773..0905b21 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -36,6 +36,7 @@
 #include "intel-pt.h"
 
 #include <string.h>
+#include <stddef.h>
 #include <stdlib.h>
 
 
@@ -2008,6 +2009,9 @@ int pt_insn_event(struct pt_insn_decoder *decoder, struct pt_event *uevent,
 	if (!decoder || !uevent)
 		return -pte_invalid;
 
+	if (size < offsetof(struct pt_event, variant))
+		return -pte_invalid;
+
 	/* We must currently process an event. */
 	if (!decoder->process_event)
 		return -pte_bad_query;
-- 
2.43.0


From 8a90ab50d5ccff7082263d8d857fc8f2b47e2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 28/58] fix: libipt: report asynchronous branches to a
 suppressed IP as -pte_noip

The instruction flow decoder continued at address zero and the block
decoder reported an internal error on the next event.
---
 libipt/src/pt_block_decoder.c | 4 ++++
 libipt/src/pt_insn_decoder.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 9e4ce6f..e1bf5da 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -4098,6 +4098,10 @@ static int pt_blk_process_async_branch(struct pt_block_decoder *decoder,
 	if (!decoder->enabled)
 		return -pte_bad_context;
 
+	/* We must have an IP in order to continue decoding. */
+	if (ev->ip_suppressed)
+		return -pte_noip;
+
 	/* Jump to the branch destination.  We will continue from there in the
 	 * next iteration.
 	 */
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 0905b21..a2d3362 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -1829,6 +1829,10 @@ static int pt_insn_process_async_branch(struct pt_insn_decoder *decoder)
 	if (!decoder->enabled)
 		return -pte_bad_context;
 
+	/* We must have an IP in order to continue decoding. */
+	if (ev->ip_suppressed)
+		return -pte_noip;
+
 	decoder->ip = ev->variant.async_branch.to;
 
 	/* This event provides a TRIG anchor IP. */
-- 
2.43.0


From a739ef8421c65702c65db2dd52bf8740f59345b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 29/58] fix: libipt, event: report a wrong CFE type behind EVD
 as -pte_bad_context

The packets come from the trace, which may be corrupt, so this is not
an internal error.
---
 libipt/src/pt_event_decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 8dcaa64..979e8bb 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3610,9 +3610,9 @@ static int pt_evt_decode_cfe(struct pt_event_decoder *decoder,
 		return pt_evt_fetch_packet(decoder);
 	}
 
-	/* Decoding EVD is supposed to only enqueue supported CFE types. */
+	/* This is not the CFE a preceding EVD announced. */
 	if (ev)
-		return -pte_internal;
+		return -pte_bad_context;
 
 	/* Ignore unknown CFE types.
 	 *
-- 
2.43.0


From baefcab669b03b38c392df3062ffa067c18a119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 30/58] fix: libipt, event: report a nested asynchronous branch
 as -pte_bad_context

Two FUP in front of a TIP may occur in corrupt trace; this is not an
internal error.
---
 libipt/src/pt_event_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 979e8bb..4144b55 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2984,7 +2984,7 @@ static int pt_evt_decode_tip(struct pt_event_decoder *decoder,
 
 	switch (ev->type) {
 	case ptev_async_branch:
-		return -pte_internal;
+		return -pte_bad_context;
 
 	case ptev_exec_mode:
 		errcode = pt_evt_event_ip(&ev->variant.exec_mode.ip, ev,
-- 
2.43.0


From da0a8c6dbc0e0ef6bc62f0f924e7191c669c890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 31/58] fix: libipt, event: search async branch again after
 dequeueing events

Dequeueing an event may move the other events in the queue so that the
pointer found earlier no longer points to the asynchronous branch event.
An interrupt (FUP, TIP) while an MWAIT event is pending was reported as
-pte_internal.
---
 libipt/src/pt_event_decoder.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 4144b55..ebed26e 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2915,10 +2915,18 @@ static int pt_evt_decode_tip_event(struct pt_event_decoder *decoder)
 		if (!ev)
 			return -pte_internal;
 
-		/* Swap the asynchronous branch event with the first event. */
-		if (ev != async) {
+		/* Swap the asynchronous branch event with the first event.
+		 *
+		 * Dequeueing may have moved events; we need to search again.
+		 */
+		if (ev->type != ptev_async_branch) {
 			struct pt_event tmp;
 
+			async = pt_evq_find(&decoder->evq, evb_tip,
+					    ptev_async_branch);
+			if (!async)
+				return -pte_internal;
+
 			tmp = *async;
 			*async = *ev;
 			*ev = tmp;
-- 
2.43.0


From 13465edf714dc418e8a10b6c475d432b29023b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 32/58] fix: libipt, ild: VMCLEAR and VMXON are not VMPTRLD

They share the opcode and differ in the mandatory prefix.  A VMCS packet must
not bind to them.
---
 libipt/src/pt_ild.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index 6e3c970..73a9167 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1447,7 +1447,8 @@ static int pt_instruction_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
 		return 0;
 
 	case 0xc7:
-		if (map == PTI_MAP_1 &&
+		/* With a 66 or F3 prefix, it's VMCLEAR or VMXON. */
+		if (map == PTI_MAP_1 && !ild->osz && !ild->last_f2f3 &&
 		    pti_get_modrm_mod(ild) != 3 &&
 		    pti_get_modrm_reg(ild) == 6)
 			iext->iclass = PTI_INST_VMPTRLD;
-- 
2.43.0


From 9b837ac0ec3b3c35892e36d33b3146196e5b619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 33/58] fix: libipt, section: report read errors

A file that can't be read was treated like one that ends there and the caller
was told that zero bytes had been read.
---
 libipt/src/pt_section_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_section_file.c b/libipt/src/pt_section_file.c
index 1ad445b..f19a1b0 100644
--- a/libipt/src/pt_section_file.c
+++ b/libipt/src/pt_section_file.c
@@ -230,6 +230,10 @@ int pt_sec_file_read(const struct pt_section *section, uint8_t *buffer,
 		goto out_unlock;
 
 	read = fread(buffer, 1, size, file);
+	if ((read < size) && ferror(file)) {
+		clearerr(file);
+		goto out_unlock;
+	}
 
 	errcode = fmap_unlock(mapping);
 	if (errcode < 0)
-- 
2.43.0


From 4efb3f9202fa56ddddd940f851cfa66471e7e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 34/58] fix: libipt, image: fail the allocation if it can't be
 completed

pt_image_alloc() and pt_iscache_alloc() silently lost the name if it could not
be copied.  pt_iscache_alloc() further returned a section cache with a lock that
had not been initialized.
---
 libipt/src/pt_image.c               | 10 ++++++++--
 libipt/src/pt_image_section_cache.c | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index 725bc92..b0bb5e6 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -113,8 +113,14 @@ struct pt_image *pt_image_alloc(const char *name)
 	struct pt_image *image;
 
 	image = malloc(sizeof(*image));
-	if (image)
-		pt_image_init(image, name);
+	if (!image)
+		return NULL;
+
+	pt_image_init(image, name);
+	if (name && !image->name) {
+		free(image);
+		return NULL;
+	}
 
 	return image;
 }
diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index afb97ee..eaa84e2 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -53,8 +53,10 @@ int pt_iscache_init(struct pt_image_section_cache *iscache, const char *name)
 		int errcode;
 
 		errcode = mtx_init(&iscache->lock, mtx_plain);
-		if (errcode != thrd_success)
+		if (errcode != thrd_success) {
+			free(iscache->name);
 			return -pte_bad_lock;
+		}
 	}
 #endif /* defined(FEATURE_THREADS) */
 
@@ -850,10 +852,17 @@ int pt_iscache_clear(struct pt_image_section_cache *iscache)
 struct pt_image_section_cache *pt_iscache_alloc(const char *name)
 {
 	struct pt_image_section_cache *iscache;
+	int errcode;
 
 	iscache = malloc(sizeof(*iscache));
-	if (iscache)
-		pt_iscache_init(iscache, name);
+	if (!iscache)
+		return NULL;
+
+	errcode = pt_iscache_init(iscache, name);
+	if (errcode < 0) {
+		free(iscache);
+		return NULL;
+	}
 
 	return iscache;
 }
-- 
2.43.0


From 0fd35df9804a8416f563fe87e12961828c2174ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:36 +0000
Subject: [PATCH 35/58] fix: libipt, cpu: refuse an empty stepping

A CPU string ending in a separator, e.g. "6/44/", was accepted as stepping 0.
---
 libipt/src/pt_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_cpu.c b/libipt/src/pt_cpu.c
index 1c4ca20..5d340fd 100644
--- a/libipt/src/pt_cpu.c
+++ b/libipt/src/pt_cpu.c
@@ -69,7 +69,7 @@ int pt_cpu_parse(struct pt_cpu *cpu, const char *s)
 		s = endptr + 1;
 
 		stepping = strtol(s, &endptr, 0);
-		if (*endptr != '\0')
+		if (s == endptr || *endptr != '\0')
 			return -pte_invalid;
 
 		if (stepping < 0 || stepping > UCHAR_MAX)
-- 
2.43.0


From c7749a959250d95e1c1e3bba996a0a5dbb1fec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 36/58] fix: sideband: report offsets relative to the file

The offsets given to error callbacks and printed with the records ignored that
only a part of the file may have been loaded.
---
 sideband/internal/include/pt_sb_pevent.h |  3 +++
 sideband/src/pt_sb_pevent.c              | 11 ++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sideband/internal/include/pt_sb_pevent.h b/sideband/internal/include/pt_sb_pevent.h
index 328e2e6..e4cb912 100644
--- a/sideband/internal/include/pt_sb_pevent.h
+++ b/sideband/internal/include/pt_sb_pevent.h
@@ -100,6 +100,9 @@ struct pt_sb_pevent_priv {
 	/* The begin and end of the sideband data in memory. */
 	uint8_t *begin, *end;
 
+	/* The offset of @begin in @filename. */
+	uint64_t offset;
+
 	/* The position of the current and the next record in the sideband
 	 * buffer.
 	 *
diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 83dac5e..90a2095 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -155,7 +155,7 @@ static int pt_sb_pevent_error(const struct pt_sb_session *session, int errcode,
 			return -pte_internal;
 
 		filename = priv->filename;
-		offset = (uint64_t) (int64_t) (pos - begin);
+		offset = priv->offset + (uint64_t) (int64_t) (pos - begin);
 	}
 
 	return pt_sb_error(session, errcode, filename, offset);
@@ -310,6 +310,7 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->begin = (uint8_t *) buffer;
 	priv->end = (uint8_t *) buffer + size;
 	priv->next = (uint8_t *) buffer;
+	priv->offset = config->begin;
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
@@ -838,6 +839,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 	struct pev_event *event;
 	const uint8_t *pos, *begin;
 	const char *filename;
+	uint64_t offset;
 	int errcode;
 
 	if (!priv)
@@ -857,12 +859,12 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 		return -pte_internal;
 
 	event = &priv->event;
+	offset = priv->offset + (uint64_t) (int64_t) (pos - begin);
 
 	/* Print filename and/or file offset before the actual record. */
 	switch (flags & (ptsbp_filename | ptsbp_file_offset)) {
 	case ptsbp_filename | ptsbp_file_offset:
-		fprintf(stream, "%s:%016" PRIx64 "  ", filename,
-			(uint64_t) (int64_t) (pos - begin));
+		fprintf(stream, "%s:%016" PRIx64 "  ", filename, offset);
 		break;
 
 	case ptsbp_filename:
@@ -870,8 +872,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 		break;
 
 	case ptsbp_file_offset:
-		fprintf(stream, "%016" PRIx64 "  ",
-			(uint64_t) (int64_t) (pos - begin));
+		fprintf(stream, "%016" PRIx64 "  ", offset);
 		break;
 	}
 
-- 
2.43.0


From 87ee6f98854c857277e71313ca9954298b348945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 37/58] fix: sideband, pevent: don't wrap around with negative
 tsc offsets

A negative offset was treated as huge positive one for records with a time
greater than or equal to it and pushed them to the beginning.
---
 sideband/src/pt_sb_pevent.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 90a2095..8e8e1e8 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -404,17 +404,16 @@ static int pt_sb_pevent_fetch(uint64_t *ptsc, struct pt_sb_pevent_priv *priv)
 	 */
 	offset = priv->tsc_offset;
 	tsc = event->sample.tsc;
-	if (offset <= tsc)
-		tsc -= offset;
-	else {
-		if (0ll <= (int64_t) offset)
+	if (0ll <= (int64_t) offset) {
+		if (offset <= tsc)
+			tsc -= offset;
+		else
 			tsc = 0ull;
-		else {
-			if (tsc <= offset)
-				tsc -= offset;
-			else
-				tsc = UINT64_MAX;
-		}
+	} else {
+		if (tsc <= UINT64_MAX + offset)
+			tsc -= offset;
+		else
+			tsc = UINT64_MAX;
 	}
 
 	/* We update the event record's timestamp, as well, so we will print the
-- 
2.43.0


From d8d0a2b2821451b6bdf826ad18b5a8f86b5dcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 38/58] fix: sideband, pevent: free everything if the decoder
 can't be allocated

---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 8e8e1e8..aa69676 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1798,7 +1798,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_alloc_decoder(session, &config);
 	if (errcode < 0)
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 
 	return errcode;
 }
-- 
2.43.0


From 6f7c7fdcb46980a22023d6009f2d4be8bf842705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 39/58] fix: sideband: report failure to read a file

A read error or a short read was ignored and left the buffer uninitialized.
---
 sideband/src/pt_sb_file.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sideband/src/pt_sb_file.c b/sideband/src/pt_sb_file.c
index 4591bcc..2c71c19 100644
--- a/sideband/src/pt_sb_file.c
+++ b/sideband/src/pt_sb_file.c
@@ -40,7 +40,7 @@
 int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 		    size_t begin, size_t end)
 {
-	size_t size;
+	size_t size, count;
 	FILE *file;
 	void *content;
 	long fsize, fbegin, fend;
@@ -88,7 +88,13 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 		return -pte_nomem;
 	}
 
-	*psize = fread(content, 1, size, file);
+	count = fread(content, 1, size, file);
+	if (count != size) {
+		free(content);
+		goto out_file;
+	}
+
+	*psize = size;
 	*pbuffer = content;
 
 	fclose(file);
-- 
2.43.0


From f586e350cf947e4242270213ee8ada07d845239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 40/58] fix: sideband, pevent: don't free twice on errors

When a path could not be copied, pt_sb_pevent_init() freed the decoder's private
data and so did its caller.
---
 sideband/src/pt_sb_pevent.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index aa69676..30b6b16 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -225,12 +225,10 @@ static int pt_sb_pevent_find_vdso(const char **pvdso,
 	return 0;
 }
 
-static void pt_sb_pevent_dtor(void *priv_arg)
+static void pt_sb_pevent_fini(struct pt_sb_pevent_priv *priv)
 {
-	struct pt_sb_pevent_priv *priv;
 	struct pt_sb_context *context;
 
-	priv = (struct pt_sb_pevent_priv *) priv_arg;
 	if (!priv)
 		return;
 
@@ -248,6 +246,15 @@ static void pt_sb_pevent_dtor(void *priv_arg)
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
 	free(priv->begin);
+}
+
+static void pt_sb_pevent_dtor(void *priv_arg)
+{
+	struct pt_sb_pevent_priv *priv;
+
+	priv = (struct pt_sb_pevent_priv *) priv_arg;
+
+	pt_sb_pevent_fini(priv);
 	free(priv);
 }
 
@@ -314,31 +321,31 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->sysroot, config->sysroot);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x64, config->vdso_x64);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x32, config->vdso_x32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_ia32, config->vdso_ia32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
-- 
2.43.0


From fc527c5c2491b2eb06af8a69a22da5b7ea4798ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 41/58] fix: sideband: report sections lost when copying an
 image

pt_image_copy() returns the number of sections it had to ignore.  This was
treated as success and left the copied process without part of its memory.
---
 sideband/src/pt_sb_pevent.c  | 14 +++++++++++---
 sideband/src/pt_sb_session.c | 10 ++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 30b6b16..13af82e 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1048,6 +1048,7 @@ pt_sb_pevent_itrace_start(struct pt_sb_session *session,
 }
 
 static int pt_sb_pevent_fork(struct pt_sb_session *session,
+			     const struct pt_sb_pevent_priv *priv,
 			     const struct pev_record_fork *record)
 {
 	struct pt_sb_context *context, *parent;
@@ -1106,8 +1107,15 @@ static int pt_sb_pevent_fork(struct pt_sb_session *session,
 	if (!pimage || !image)
 		return -pte_internal;
 
-	/* Initialize the child's image with its parent's. */
-	return pt_image_copy(image, pimage);
+	/* Initialize the child's image with its parent's.
+	 *
+	 * A positive return value gives the number of ignored sections.
+	 */
+	errcode = pt_image_copy(image, pimage);
+	if (errcode > 0)
+		return pt_sb_pevent_error(session, ptse_section_lost, priv);
+
+	return errcode;
 }
 
 static int pt_sb_pevent_exec(struct pt_sb_session *session,
@@ -1335,7 +1343,7 @@ static int pt_sb_pevent_apply_event_record(struct pt_sb_session *session,
 						 event->record.itrace_start);
 
 	case PERF_RECORD_FORK:
-		return pt_sb_pevent_fork(session, event->record.fork);
+		return pt_sb_pevent_fork(session, priv, event->record.fork);
 
 	case PERF_RECORD_COMM:
 		/* We're only interested in COMM.EXEC events. */
diff --git a/sideband/src/pt_sb_session.c b/sideband/src/pt_sb_session.c
index 1a8e043..5619361 100644
--- a/sideband/src/pt_sb_session.c
+++ b/sideband/src/pt_sb_session.c
@@ -138,7 +138,7 @@ static int pt_sb_add_context_by_pid(struct pt_sb_context **pcontext,
 	struct pt_sb_context *context;
 	struct pt_image *kernel;
 	char iname[16];
-	int errcode;
+	int status;
 
 	if (!pcontext || !session)
 		return -pte_invalid;
@@ -154,10 +154,12 @@ static int pt_sb_add_context_by_pid(struct pt_sb_context **pcontext,
 	if (!context)
 		return -pte_nomem;
 
-	errcode = pt_image_copy(context->image, kernel);
-	if (errcode < 0) {
+	status = pt_image_copy(context->image, kernel);
+	if (status) {
 		(void) pt_sb_ctx_put(context);
-		return errcode;
+
+		/* A positive @status gives the number of ignored sections. */
+		return (status < 0) ? status : -pte_nomem;
 	}
 
 	context->next = session->contexts;
-- 
2.43.0


From 0241b7e2b146274cf7215947239196c1e4738873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 42/58] fix: ptdump: reset last-ip on PSB and OVF

Like the event decoder does.  A compressed IP after PSB or OVF was completed
with bits from an earlier packet.
---
 ptdump/src/ptdump.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index a2daba6..0cae0dc 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1085,6 +1085,7 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 				diag("error calibrating time", offset, errcode);
 		}
 
+		pt_last_ip_init(&tracking->last_ip);
 		tracking->in_header = 1;
 		return 0;
 
@@ -1119,6 +1120,7 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 				pt_tcal_init(&tracking->tcal);
 		}
 
+		pt_last_ip_init(&tracking->last_ip);
 		return 0;
 
 	case ppt_stop:
-- 
2.43.0


From 3c495cf25f74bd2a38e9e3722712e860c37e5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 43/58] fix: ptdump: an overflow ends PSB+

Time calibration kept treating TSC and CBR packets as part of PSB+ until the
next PSBEND.
---
 ptdump/src/ptdump.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index 0cae0dc..bb8d12e 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1121,6 +1121,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 		}
 
 		pt_last_ip_init(&tracking->last_ip);
+
+		/* An overflow ends PSB+. */
+		tracking->in_header = 0;
 		return 0;
 
 	case ppt_stop:
-- 
2.43.0


From 834605ba0a13f08593b828c22a85fa3dceafe5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 44/58] fix: ptdump: refuse trace offsets beyond the range of
 long

An offset of 2^63 or more became negative and passed the check against the file
size.
---
 ptdump/src/ptdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index bb8d12e..96eaadd 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -396,7 +396,7 @@ static int load_file(uint8_t **buffer, size_t *psize, const char *filename,
 	}
 
 	begin = (long) offset;
-	if (((uint64_t) begin != offset) || (fsize <= begin)) {
+	if (((uint64_t) begin != offset) || (begin < 0) || (fsize <= begin)) {
 		fprintf(stderr,
 			"%s: bad offset 0x%" PRIx64 " into %s.\n",
 			prog, offset, filename);
-- 
2.43.0


From 3e8d719ad6adb0a58b2686d2c947b0d6c38ddb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 45/58] fix: event decoder: an abort after SKD010 keeps its
 branch

---
 libipt/src/pt_event_decoder.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ebed26e..d86f9f3 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2335,10 +2335,15 @@ static int pt_evt_handle_skd010(struct pt_event_decoder *decoder)
 			/* If we got a MODE.TSX packet before, we enqueue the
 			 * tsx event.  We will process it after the overflow in
 			 * the next iteration.
+			 *
+			 * An abort does not bind to the FUP, which belongs to
+			 * the branch to the abort handler.
 			 */
 			if (mode_tsx.found) {
-				ev = pt_evq_enqueue(&decoder->evq,
-						    evb_fup_bound);
+				uint32_t evb;
+
+				evb = mode_tsx.abrt ? evb_fup : evb_fup_bound;
+				ev = pt_evq_enqueue(&decoder->evq, evb);
 				if (!ev)
 					return -pte_nomem;
 
-- 
2.43.0


From dda7aef16e760e5110273e8f588665323026bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 46/58] fix: block decoder: SKL014 and ending blocks at calls
 and jumps

---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index e1bf5da..7668403 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1211,7 +1211,7 @@ static int pt_blk_proceed_skl014(struct pt_block_decoder *decoder,
 		    (insn->iclass == ptic_call)) ||
 		    (decoder->flags.variant.block.end_on_jump &&
 		    (insn->iclass == ptic_jump)))
-			break;
+			return 0;
 	}
 
 	return status;
-- 
2.43.0


From 95cd73729b246bb476aa403454fcd8bfe8cad321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 47/58] fix: event decoder: BDM70: a spurious FUP counts for IP
 compression

---
 libipt/src/pt_event_decoder.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index d86f9f3..6cb5a3b 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -664,9 +664,12 @@ static int pt_evt_header_fup(struct pt_event_decoder *decoder,
 	}
 
 	decoder->enabled = enabled;
-	if (!enabled)
+	if (packet->ipc == pt_ipc_suppressed)
 		return 0;
 
+	/* Subsequent IP packets are compressed relative to this FUP even if it
+	 * is there only due to BDM70.
+	 */
 	return pt_last_ip_update_ip(&decoder->ip, packet, config);
 }
 
@@ -1579,6 +1582,7 @@ pt_evt_get_config(const struct pt_event_decoder *decoder)
 
 static int pt_evt_decode_psbend(struct pt_event_decoder *decoder)
 {
+	struct pt_last_ip ip;
 	struct pt_event *ev;
 	int errcode;
 
@@ -1591,35 +1595,37 @@ static int pt_evt_decode_psbend(struct pt_event_decoder *decoder)
 
 	decoder->event = ev;
 
+	/* If tracing is disabled, PSB+ does not provide an IP.  There may still
+	 * be a FUP due to BDM70.
+	 */
+	if (decoder->enabled)
+		ip = decoder->ip;
+	else
+		pt_last_ip_init(&ip);
+
 	switch (ev->type) {
 	case ptev_enabled:
-		errcode = pt_evt_event_ip(&ev->variant.enabled.ip, ev,
-					  &decoder->ip);
+		errcode = pt_evt_event_ip(&ev->variant.enabled.ip, ev, &ip);
 		break;
 
 	case ptev_exec_mode:
-		errcode = pt_evt_event_ip(&ev->variant.exec_mode.ip, ev,
-					  &decoder->ip);
+		errcode = pt_evt_event_ip(&ev->variant.exec_mode.ip, ev, &ip);
 		break;
 
 	case ptev_iflags:
-		errcode = pt_evt_event_ip(&ev->variant.iflags.ip, ev,
-					  &decoder->ip);
+		errcode = pt_evt_event_ip(&ev->variant.iflags.ip, ev, &ip);
 		break;
 
 	case ptev_tsx:
-		errcode = pt_evt_event_ip(&ev->variant.tsx.ip, ev,
-					  &decoder->ip);
+		errcode = pt_evt_event_ip(&ev->variant.tsx.ip, ev, &ip);
 		break;
 
 	case ptev_async_paging:
-		errcode = pt_evt_event_ip(&ev->variant.async_paging.ip, ev,
-					  &decoder->ip);
+		errcode = pt_evt_event_ip(&ev->variant.async_paging.ip, ev, &ip);
 		break;
 
 	case ptev_async_vmcs:
-		errcode = pt_evt_event_ip(&ev->variant.async_vmcs.ip, ev,
-					  &decoder->ip);
+		errcode = pt_evt_event_ip(&ev->variant.async_vmcs.ip, ev, &ip);
 		break;
 
 	case ptev_disabled:
-- 
2.43.0


From 320d234b50a385df81a97c583c82bdab0e69428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 48/58] fix: event decoder: BDM70: the mode may have changed
 while disabled

---
 libipt/src/pt_event_decoder.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 6cb5a3b..8fdc128 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -625,6 +625,7 @@ static int pt_evt_check_bdm70(struct pt_event_decoder *decoder)
 		case ppt_tsc:
 		case ppt_cbr:
 		case ppt_psbend:
+		case ppt_fup:
 		case ppt_pip:
 		case ppt_mode:
 		case ppt_vmcs:
@@ -683,6 +684,28 @@ static int pt_evt_header_mode(struct pt_event_decoder *decoder,
 
 	switch (packet->leaf) {
 	case pt_mol_exec:
+		/* The mode may have changed while tracing was disabled.  We
+		 * would not see a MODE.EXEC without BDM70.
+		 */
+		if (decoder->mode_exec_valid) {
+			const struct pt_config *config;
+
+			config = pt_evt_config(decoder);
+			if (!config)
+				return -pte_internal;
+
+			if (config->errata.bdm70) {
+				int errcode;
+
+				errcode = pt_evt_check_bdm70(decoder);
+				if (errcode < 0)
+					return errcode;
+
+				if (errcode)
+					decoder->mode_exec_valid = 0;
+			}
+		}
+
 		/* If our mode.exec state is already initialized, we can use
 		 * the status update packet to diagnose inconsistencies.
 		 *
-- 
2.43.0


From 47169a9296d581de9cb6121945c42bc9cadd777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 49/58] fix: event decoder: SKD010: consider BDM70 when
 recovering at PSB+

---
 libipt/src/pt_event_decoder.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 8fdc128..15f8821 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -587,14 +587,14 @@ static int pt_evt_decode_cyc(struct pt_event_decoder *decoder,
 	return 1;
 }
 
-static int pt_evt_check_bdm70(struct pt_event_decoder *decoder)
+static int pt_evt_check_bdm70(const struct pt_packet_decoder *decoder)
 {
 	struct pt_packet_decoder pacdec;
 
 	if (!decoder)
 		return -pte_internal;
 
-	pacdec = decoder->pacdec;
+	pacdec = *decoder;
 	for (;;) {
 		struct pt_packet packet;
 		int errcode;
@@ -656,7 +656,7 @@ static int pt_evt_header_fup(struct pt_event_decoder *decoder,
 		return -pte_internal;
 
 	if (config->errata.bdm70) {
-		errcode = pt_evt_check_bdm70(decoder);
+		errcode = pt_evt_check_bdm70(&decoder->pacdec);
 		if (errcode < 0)
 			return errcode;
 
@@ -697,7 +697,7 @@ static int pt_evt_header_mode(struct pt_event_decoder *decoder,
 			if (config->errata.bdm70) {
 				int errcode;
 
-				errcode = pt_evt_check_bdm70(decoder);
+				errcode = pt_evt_check_bdm70(&decoder->pacdec);
 				if (errcode < 0)
 					return errcode;
 
@@ -2426,6 +2426,13 @@ static int pt_evt_handle_skd010(struct pt_event_decoder *decoder)
 			if (fup.type != ppt_fup)
 				return -pte_internal;
 
+			/* It may be there only due to BDM70. */
+			if (pt_evt_config(decoder)->errata.bdm70) {
+				errcode = pt_evt_check_bdm70(&pacdec);
+				if (errcode != 0)
+					return errcode;
+			}
+
 			return pt_evt_recover_ovf_at_ip(decoder, &pacdec,
 							&packet,
 							&fup.payload.ip,
-- 
2.43.0


From 548b017645401c2488e42c2aaadc4ac38b158aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 50/58] fix: ptseg: print the segment that contains the offset

---
 ptseg/src/ptseg.c | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/ptseg/src/ptseg.c b/ptseg/src/ptseg.c
index e6d7aad..08b6580 100644
--- a/ptseg/src/ptseg.c
+++ b/ptseg/src/ptseg.c
@@ -217,33 +217,33 @@ static int ptseg_pkt_find_seg(uint64_t *begin, uint64_t *end,
 			      struct pt_packet_decoder *decoder,
 			      uint64_t offset)
 {
-	int errcode;
-
-	errcode = pt_pkt_sync_set(decoder, offset);
-	if (errcode < 0)
-		return errcode;
+	/* The segment containing @offset begins with the last PSB at or before
+	 * @offset and it ends at the first PSB after @offset.
+	 */
+	for (;;) {
+		uint64_t sync;
+		int errcode;
+
+		errcode = pt_pkt_sync_forward(decoder);
+		if (errcode < 0) {
+			if (errcode != -pte_eos)
+				return errcode;
+
+			return 0;
+		}
 
-	errcode = pt_pkt_sync_backward(decoder);
-	if (errcode < 0) {
-		if (errcode != -pte_eos)
-			return errcode;
-	} else {
-		errcode = pt_pkt_get_offset(decoder, begin);
+		errcode = pt_pkt_get_offset(decoder, &sync);
 		if (errcode < 0)
 			return errcode;
-	}
 
-	errcode = pt_pkt_sync_forward(decoder);
-	if (errcode < 0) {
-		if (errcode != -pte_eos)
-			return errcode;
-	} else {
-		errcode = pt_pkt_get_offset(decoder, end);
-		if (errcode < 0)
-			return errcode;
-	}
+		if (offset < sync) {
+			*end = sync;
 
-	return 0;
+			return 0;
+		}
+
+		*begin = sync;
+	}
 }
 
 static int ptseg_find_seg(uint64_t *begin, uint64_t *end,
@@ -252,6 +252,9 @@ static int ptseg_find_seg(uint64_t *begin, uint64_t *end,
 	struct pt_packet_decoder *decoder;
 	int errcode;
 
+	if ((uint64_t) (config->end - config->begin) < offset)
+		return -pte_eos;
+
 	decoder = pt_pkt_alloc_decoder(config);
 	if (!decoder)
 		return -pte_nomem;
-- 
2.43.0


From 5fc7ee572fb70e8ae430a5a9d5b4b342ee990ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 51/58] fix: pttc: accept C-state and sub C-state 15

---
 pttc/src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index c88e041..635d86f 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -802,7 +802,7 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!sub_state)
 			return -err_parse_c_state_sub;
 
-		if (0xf <= min)
+		if (0xf < min)
 			return -err_parse_c_state_invalid;
 
 		fallthrough;
@@ -810,7 +810,7 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!state)
 			return -err_internal;
 
-		if (0xf <= maj)
+		if (0xf < maj)
 			return -err_parse_c_state_invalid;
 
 		break;
-- 
2.43.0


From ff48c14791fa27762131bbaa4fce09c1e846734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 52/58] fix: pttc: fail on unknown pip modifiers

---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 635d86f..b712aa1 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -1423,7 +1423,7 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			else {
 				yasm_print_err(p->y, "pip: parsing failed",
 					       -err_parse_trailing_tokens);
-				return errcode;
+				return -err_parse_trailing_tokens;
 			}
 		}
 	} else if (strcmp(directive, "tsc") == 0) {
-- 
2.43.0


From 66cae72ea953c41b07666a30fcdc24b0f1ba6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 53/58] fix: pttc: don't mask labels that keep all eight bytes

---
 pttc/src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index b712aa1..e7fe632 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -501,7 +501,8 @@ static int p_gen_expfile(struct parser *p)
 					goto error;
 				}
 
-				addr &= (1ull << (n << 3)) - 1ull;
+				if (n < 8)
+					addr &= (1ull << (n << 3)) - 1ull;
 				line = endptr;
 
 				qmark_size = (int) (8 - n);
-- 
2.43.0


From 28ed7796f0009c6b57700004a6d1b1035e02245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 54/58] fix: pttc: omit the dash from .exp file names without a
 tool

---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index e7fe632..67e04b6 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -268,7 +268,7 @@ static char *expfilename(struct parser *p, const char *extra)
 		len = snprintf(filename, sizeof(filename), "%s-%s%s%s",
 			       p->y->fileroot, extra, cpuext, exp_suffix);
 	else
-		len = snprintf(filename, sizeof(filename), "%s-%s%s",
+		len = snprintf(filename, sizeof(filename), "%s%s%s",
 			       p->y->fileroot, cpuext, exp_suffix);
 
 	if ((len < 0) || (sizeof(filename) <= (size_t) len))
-- 
2.43.0


From d8714af2d509fa01f6068c07167c86a176d226c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 55/58] fix: pttc: use all arguments of pevent-sample_type

---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 67e04b6..b009081 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -2732,7 +2732,7 @@ static int p_process_sb(struct parser *p)
 				uint64_t value;
 				int errcode;
 
-				errcode = parse_uint64(&value, payload);
+				errcode = str_to_uint64(token, &value, 0);
 				if (errcode < 0) {
 					yasm_print_err(p->y, token, errcode);
 					return errcode;
-- 
2.43.0


From c3b2a0f4776c09af48bc4d2e31a7388a5fc4ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:24 +0000
Subject: [PATCH 56/58] fix: pttc: fail on directives that are too long

---
 pttc/src/yasm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 2284b44..a3cb2a9 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -524,6 +524,9 @@ int pd_set(struct pt_directive *pd, enum pt_directive_kind kind,
 	if (bug_on(!payload))
 		return -err_internal;
 
+	if (pd->nlen <= strlen(name) || pd->plen <= strlen(payload))
+		return -err_name_too_long;
+
 	pd->kind = kind;
 	strncpy(pd->name, name, pd->nlen);
 	if (pd->nlen > 0)
-- 
2.43.0


From 19e55de22bfd3bd23eabdbfe5b4bc141aa1c0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:52 +0000
Subject: [PATCH 57/58] fix: block decoder: decode sections that are too big
 for a block cache

---
 libipt/src/pt_block_decoder.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 7668403..2beb8e1 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3071,8 +3071,11 @@ static int pt_blk_msec_fill(struct pt_block_decoder *decoder,
 
 	*pmsec = msec;
 
+	/* Some sections are too big for a block cache.  We decode those without
+	 * it.
+	 */
 	errcode = pt_section_request_bcache(section);
-	if (errcode < 0)
+	if (errcode < 0 && errcode != -pte_not_supported)
 		return errcode;
 
 	return isid;
-- 
2.43.0


From 5e87f4886167bf7c03c0e00928c645eb42539512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 58/58] fix: block decoder: report missing time and core:bus
 ratio

pt_blk_time() and pt_blk_core_bus_ratio() are documented to return
-pte_no_time and -pte_no_cbr if there has not been a TSC or CBR packet.
They returned zero, instead.  The lost_mtc and lost_cyc arguments of
pt_blk_time() are optional.
---
 libipt/src/pt_block_decoder.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2beb8e1..fd7aa96 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -640,12 +640,18 @@ pt_blk_get_config(const struct pt_block_decoder *decoder)
 int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 		uint32_t *lost_mtc, uint32_t *lost_cyc)
 {
-	if (!decoder || !time || !lost_mtc || !lost_cyc)
+	if (!decoder || !time)
 		return -pte_invalid;
 
 	*time = decoder->tsc;
-	*lost_mtc = decoder->lost_mtc;
-	*lost_cyc = decoder->lost_cyc;
+
+	if (lost_mtc)
+		*lost_mtc = decoder->lost_mtc;
+	if (lost_cyc)
+		*lost_cyc = decoder->lost_cyc;
+
+	if (!decoder->has_tsc)
+		return -pte_no_time;
 
 	return 0;
 }
@@ -655,6 +661,10 @@ int pt_blk_core_bus_ratio(struct pt_block_decoder *decoder, uint32_t *cbr)
 	if (!decoder || !cbr)
 		return -pte_invalid;
 
+	/* A core:bus ratio of zero is not valid. */
+	if (!decoder->cbr)
+		return -pte_no_cbr;
+
 	*cbr = decoder->cbr;
 
 	return 0;
-- 
2.43.0

