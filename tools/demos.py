"""Developer helper: C preambles for demos."""
FLOW=r'''
#include "intel-pt.h"
#include <stdio.h>
#include <string.h>
static const uint8_t *code; static int clen; static uint64_t base = 0x401000;
static int rd(uint8_t *b, size_t n, const struct pt_asid *a, uint64_t ip, void *c) {
	if (ip < base || ip >= base + clen) return -pte_nomap;
	if (n > base + clen - ip) n = base + clen - ip;
	memcpy(b, code + (ip - base), n); return (int) n; }
static char out[1 << 20];
static void insns(const uint8_t *tr, size_t n) {
	struct pt_config c; pt_config_init(&c); c.begin = (uint8_t *) tr; c.end = c.begin + n;
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	struct pt_image *im = pt_image_alloc(NULL); pt_image_set_callback(im, rd, NULL); pt_insn_set_image(d, im);
	int st = pt_insn_sync_forward(d), k = 0; char *o = out; *o = 0;
	for (; k < 100; k++) {
		while (st >= 0 && (st & pts_event_pending)) { struct pt_event e; st = pt_insn_event(d, &e, sizeof(e));
			if (st >= 0 && !e.status_update) { o += sprintf(o, "e%d", e.type); if (e.type == ptev_enabled) o += sprintf(o, "r%d", e.variant.enabled.resumed); *o++ = ' '; *o = 0; } }
		if (st < 0) break;
		struct pt_insn i; memset(&i, 0, sizeof(i)); st = pt_insn_next(d, &i, sizeof(i));
		if (i.iclass != ptic_error) o += sprintf(o, "%llx ", (long long) (i.ip - base));
		if (st < 0) break;
	}
	o += sprintf(o, "%s", pt_errstr(pt_errcode(st))); pt_insn_free_decoder(d); pt_image_free(im); }
static int fd_file(void) { FILE *f = fopen("code.bin", "wb"); fwrite(code, 1, clen, f); fclose(f); return 0; }
static void blocks(const uint8_t *tr, size_t n) {
	struct pt_config c; pt_config_init(&c); c.begin = (uint8_t *) tr; c.end = c.begin + n;
	struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
	struct pt_image *im = pt_image_alloc(NULL); fd_file(); pt_image_add_file(im, "code.bin", 0, clen, NULL, base); pt_blk_set_image(d, im);
	int st = pt_blk_sync_forward(d), k = 0; char *o = out; *o = 0;
	for (; k < 1000; k++) {
		while (st >= 0 && (st & pts_event_pending)) { struct pt_event e; st = pt_blk_event(d, &e, sizeof(e));
			if (st >= 0 && !e.status_update) { o += sprintf(o, "e%d", e.type); if (e.type == ptev_enabled) o += sprintf(o, "r%d", e.variant.enabled.resumed); *o++ = ' '; *o = 0; } }
		if (st < 0) break;
		struct pt_block b; memset(&b, 0, sizeof(b)); st = pt_blk_next(d, &b, sizeof(b));
		if (b.ninsn) o += sprintf(o, "%llx-%llx/%d ", (long long) (b.ip - base), (long long) (b.end_ip - base), b.ninsn);
		if (st < 0) break;
	}
	o += sprintf(o, "%s", pt_errstr(pt_errcode(st))); pt_blk_free_decoder(d); pt_image_free(im); }
#define PSB 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 0x99, 1, 0x7d, 0, 0x10, 0x40, 0, 0, 0, 2, 0x23
static int chk(const char *want) { if (!strcmp(out, want)) return 0; printf("got  %s\nwant %s\n", out, want); return 1; }
'''
EVT=r'''
#include "intel-pt.h"
#include <stdio.h>
#include <string.h>
#define PSBO 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82
#define PSB PSBO, 0x99, 1, 0x7d, 0, 0x10, 0x40, 0, 0, 0, 2, 0x23
static struct pt_event ev[200]; static int nev, end;
static void events(const uint8_t *tr, size_t n) {
	struct pt_config c; pt_config_init(&c); c.begin = (uint8_t *) tr; c.end = c.begin + n;
	struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
	nev = 0;
	end = pt_evt_sync_forward(d);
	while (end >= 0 && nev < 200) { end = pt_evt_next(d, &ev[nev], sizeof(ev[0])); if (end >= 0 && !ev[nev].status_update) nev++; }
	pt_evt_free_decoder(d);
}
#define CHK(x) do { if (!(x)) { printf("failed: %s (%d events, %d)\n", #x, nev, end); for (int q = 0; q < nev; q++) printf(" %d", ev[q].type); return 1; } } while (0)
'''
