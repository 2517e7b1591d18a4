// Uniform access to the five decoders' synchronisation interface.
#pragma once
#include "common.hpp"

namespace dec {
enum Kind { PKT, EVT, QRY, INS, BLK, NKIND };
static const char *const NAME[] = {"pkt", "evt", "qry", "insn", "blk"};

struct D {
	Kind k;
	void *p = 0;
	uint64_t ip = 0;
	D(Kind kind, const struct pt_config *c) : k(kind)
	{
		switch (k) {
		case PKT: p = pt_pkt_alloc_decoder(c); break;
		case EVT: p = pt_evt_alloc_decoder(c); break;
		case QRY: p = pt_qry_alloc_decoder(c); break;
		case INS: p = pt_insn_alloc_decoder(c); break;
		case BLK: p = pt_blk_alloc_decoder(c); break;
		default: break;
		}
	}
	D(const D &) = delete;
	~D()
	{
		switch (k) {
		case PKT: pt_pkt_free_decoder((pt_packet_decoder *)p); break;
		case EVT: pt_evt_free_decoder((pt_event_decoder *)p); break;
		case QRY: pt_qry_free_decoder((pt_query_decoder *)p); break;
		case INS: pt_insn_free_decoder((pt_insn_decoder *)p); break;
		case BLK: pt_blk_free_decoder((pt_block_decoder *)p); break;
		default: break;
		}
	}
	int fwd()
	{
		switch (k) {
		case PKT: return pt_pkt_sync_forward((pt_packet_decoder *)p);
		case EVT: return pt_evt_sync_forward((pt_event_decoder *)p);
		case QRY: return pt_qry_sync_forward((pt_query_decoder *)p, &ip);
		case INS: return pt_insn_sync_forward((pt_insn_decoder *)p);
		case BLK: return pt_blk_sync_forward((pt_block_decoder *)p);
		default: return -1;
		}
	}
	int bwd()
	{
		switch (k) {
		case PKT: return pt_pkt_sync_backward((pt_packet_decoder *)p);
		case EVT: return pt_evt_sync_backward((pt_event_decoder *)p);
		case QRY: return pt_qry_sync_backward((pt_query_decoder *)p, &ip);
		case INS: return pt_insn_sync_backward((pt_insn_decoder *)p);
		case BLK: return pt_blk_sync_backward((pt_block_decoder *)p);
		default: return -1;
		}
	}
	int set(uint64_t o)
	{
		switch (k) {
		case PKT: return pt_pkt_sync_set((pt_packet_decoder *)p, o);
		case EVT: return pt_evt_sync_set((pt_event_decoder *)p, o);
		case QRY: return pt_qry_sync_set((pt_query_decoder *)p, &ip, o);
		case INS: return pt_insn_sync_set((pt_insn_decoder *)p, o);
		case BLK: return pt_blk_sync_set((pt_block_decoder *)p, o);
		default: return -1;
		}
	}
	int off(uint64_t *o) const
	{
		switch (k) {
		case PKT: return pt_pkt_get_offset((pt_packet_decoder *)p, o);
		case EVT: return pt_evt_get_offset((pt_event_decoder *)p, o);
		case QRY: return pt_qry_get_offset((pt_query_decoder *)p, o);
		case INS: return pt_insn_get_offset((pt_insn_decoder *)p, o);
		case BLK: return pt_blk_get_offset((pt_block_decoder *)p, o);
		default: return -1;
		}
	}
	int soff(uint64_t *o) const
	{
		switch (k) {
		case PKT: return pt_pkt_get_sync_offset((pt_packet_decoder *)p, o);
		case EVT: return pt_evt_get_sync_offset((pt_event_decoder *)p, o);
		case QRY: return pt_qry_get_sync_offset((pt_query_decoder *)p, o);
		case INS: return pt_insn_get_sync_offset((pt_insn_decoder *)p, o);
		case BLK: return pt_blk_get_sync_offset((pt_block_decoder *)p, o);
		default: return -1;
		}
	}
};
} // namespace dec
