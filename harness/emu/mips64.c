// A user-mode emulator for big-endian MIPS64 Linux programs, as far as statically linked Go
// programs (GOARCH=mips64 GOMIPS64=softfloat) need one. It gives the monitors a big-endian
// machine: the library is compiled for it unchanged and runs on it, big-endian paths included.
//
// usage: mips64 PROGRAM [ARGS...]
//
// Guest threads are run in turns by one host thread. Guest address A is host address M+A.
// Files are opened with the caller's rights; only what the monitors do (results, breadcrumbs)
// is supported. A memory fault or trap ends the emulator with a line "SIGSEGV: ..." and exit code 9,
// an instruction or system call it does not know with "emulator: ..." and exit code 3.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef unsigned __int128 u128;
typedef __int128 s128;

#define SPACE (1ull << 40)
#define PAGE 4096ull
static u8 *M;
static u8 *pages; // bitmap of mapped pages

typedef struct {
	void *h;
	u8 a, b, c, sa; // rs, rt, rd (destinations: 32 instead of 0), shift amount
	s32 imm;
} insn;

typedef struct {
	u64 r[33], hi, lo, pc, npc; // pc, npc: instruction numbers
	int state;                  // 0 free, 1 ready, 2 futex, 3 sleep, 4 epoll
	u64 addr;                   // futex
	u64 deadline;               // ns, 0: none
	int tid;
} ctx;

enum { FREE, READY, FUTEX, SLEEP, EPOLL };
#define MAXCTX 256
static ctx ctxs[MAXCTX];
static int cur, nexttid = 1001;
static u64 text, textend; // addresses
static insn *code;
static u64 ncode;
static u64 evdata, evcount;
static int trace;
static volatile u64 *faultpc;

static u32 b32(u32 x) { return __builtin_bswap32(x); }
static u64 b64(u64 x) { return __builtin_bswap64(x); }
static u64 ld64(u64 a) { u64 x; memcpy(&x, M + a, 8); return b64(x); }
static u32 ld32(u64 a) { u32 x; memcpy(&x, M + a, 4); return b32(x); }
static void st64(u64 a, u64 x) { x = b64(x); memcpy(M + a, &x, 8); }
static void st32(u64 a, u32 x) { x = b32(x); memcpy(M + a, &x, 4); }

static void die(int rc, const char *f, u64 a, u64 b) {
	fprintf(stderr, f, (unsigned long long)a, (unsigned long long)b);
	fprintf(stderr, "\n");
	ctx *c = &ctxs[cur];
	for (int i = 0; i < 32; i++) fprintf(stderr, "r%d=%llx%s", i, (unsigned long long)c->r[i], i % 4 == 3 ? "\n" : " ");
	fflush(stderr);
	_exit(rc);
}

static u64 now(void) {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000000ull + t.tv_nsec;
}

static int mapped(u64 a, u64 l) {
	for (u64 p = a / PAGE; p < (a + l) / PAGE; p++)
		if (pages[p >> 3] >> (p & 7) & 1) return 1;
	return 0;
}
static void mark(u64 a, u64 l, int on) {
	for (u64 p = a / PAGE; p < (a + l) / PAGE; p++)
		if (on) pages[p >> 3] |= 1 << (p & 7);
		else pages[p >> 3] &= ~(1 << (p & 7));
}

static u64 bump = 0x4000000000ull;

static s64 do_mmap(u64 addr, u64 len, int prot, int flags) {
	if (!(flags & 0x800) || len == 0) return -22; // anonymous memory only
	len = (len + PAGE - 1) & ~(PAGE - 1);
	if (!(flags & 0x10)) {
		if (addr == 0 || (addr & (PAGE - 1)) || addr + len > SPACE || mapped(addr, len)) {
			bump = (bump + 0xffff) & ~0xffffull;
			while (bump + len <= SPACE && mapped(bump, len)) bump += 0x10000;
			if (bump + len > SPACE) return -12;
			addr = bump;
			bump += len;
		}
	} else if (addr + len > SPACE || (addr & (PAGE - 1))) return -22;
	int hp = prot & 7;
	if (mmap(M + addr, len, hp & ~4, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) return -12;
	mark(addr, len, 1);
	return addr;
}

static int oflags(int f) {
	int o = f & 3;
	if (f & 0x100) o |= O_CREAT;
	if (f & 0x200) o |= O_TRUNC;
	if (f & 0x400) o |= O_EXCL;
	if (f & 8) o |= O_APPEND;
	if (f & 0x80000) o |= O_CLOEXEC;
	if (f & 0x10000) o |= O_DIRECTORY;
	return o;
}

static s64 host(s64 x) {
	if (x >= 0) return x;
	switch (errno) { // numbers that differ
	case ENOSYS: return -89;
	case ENAMETOOLONG: return -78;
	case ELOOP: return -90;
	}
	return -errno;
}

static void put_stat(u64 a, struct stat *s) {
	memset(M + a, 0, 104);
	st32(a, s->st_dev);
	st64(a + 16, s->st_ino);
	st32(a + 24, s->st_mode);
	st32(a + 28, s->st_nlink);
	st32(a + 32, s->st_uid);
	st32(a + 36, s->st_gid);
	st32(a + 40, s->st_rdev);
	st64(a + 56, s->st_size);
	st32(a + 64, s->st_atime);
	st32(a + 72, s->st_mtime);
	st32(a + 80, s->st_ctime);
	st32(a + 88, s->st_blksize);
	st64(a + 96, s->st_blocks);
}

#define EBLOCK (-100000) // the thread waits; its result is set later
#define str(x) ((char *)(M + (x)))

static u64 timeout(u64 a) { return now() + ld64(a) * 1000000000ull + ld64(a + 8); }

static s64 sys(ctx *c, u64 n, u64 a, u64 b, u64 d, u64 e) {
	struct stat st;
	switch (n) {
	case 5000:
		if (a == 1001) {
			if (!evcount) return -11;
			st64(b, evcount);
			evcount = 0;
			return 8;
		}
		return host(read(a, M + b, d));
	case 5001:
		if (a == 1001) { evcount += ld64(b); return 8; }
		return host(write(a, M + b, d));
	case 5002: return host(open(str(a), oflags(b), d));
	case 5247: return host(openat((int)a == -100 ? AT_FDCWD : (int)a, str(b), oflags(d), e));
	case 5003: return a >= 1000 ? 0 : host(close(a));
	case 5005:
		if (fstat(a, &st) < 0) return host(-1);
		put_stat(b, &st);
		return 0;
	case 5004: case 5006:
		if (stat(str(a), &st) < 0) return host(-1);
		put_stat(b, &st);
		return 0;
	case 5252:
		if (fstatat((int)a == -100 ? AT_FDCWD : (int)a, str(b), &st, e) < 0) return host(-1);
		put_stat(d, &st);
		return 0;
	case 5008: return host(lseek(a, b, d));
	case 5016: return host(pread(a, M + b, d, e));
	case 5017: return host(pwrite(a, M + b, d, e));
	case 5009: return do_mmap(a, b, d, e);
	case 5010:
		if (a + b > SPACE) return -12;
		return host(mprotect(M + a, b, d & 3));
	case 5011:
		if (a + b > SPACE || (a & (PAGE - 1))) return -22;
		b = (b + PAGE - 1) & ~(PAGE - 1);
		mmap(M + a, b, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
		mark(a, b, 0);
		return 0;
	case 5012: return 0x3000000000ull;
	case 5013:
		if (d) memset(M + d, 0, 32);
		return 0;
	case 5014:
		if (d) memset(M + d, 0, 16);
		return 0;
	case 5129:
		if (b) {
			memset(M + b, 0, 24);
			st32(b + 16, 2);
		}
		return 0;
	case 5023: return 0;
	case 5026: return -89;
	case 5027:
		if (a + b > SPACE) return -12;
		if (d == 4 || d == 8) return host(madvise(M + a, b, d));
		return 0;
	case 5034:
		c->deadline = timeout(a);
		c->state = SLEEP;
		return EBLOCK;
	case 5038: return 1000;
	case 5178: return c->tid;
	case 5225: case 5060: case 5192: return 0;
	case 5036: case 5216: case 5217: case 5220: return -89;
	case 5055: {
		int i;
		for (i = 0; i < MAXCTX && ctxs[i].state != FREE; i++) {}
		if (i == MAXCTX) return -11;
		ctxs[i] = *c;
		ctxs[i].state = READY;
		ctxs[i].tid = nexttid++;
		ctxs[i].r[29] = b;
		ctxs[i].r[2] = 0;
		ctxs[i].r[7] = 0;
		return ctxs[i].tid;
	}
	case 5058:
		c->state = FREE;
		return EBLOCK;
	case 5205:
		_exit((int)a);
	case 5070:
		if (b == 3) { // get flags
			s64 x = host(fcntl(a, F_GETFL));
			return x < 0 ? x : (x & 3) | (x & O_APPEND ? 8 : 0) | (x & O_NONBLOCK ? 0x80 : 0);
		}
		if (b == 1) return host(fcntl(a, F_GETFD));
		return 0;
	case 5095: case 5297: {
		u64 p = n == 5095 ? b : e;
		if (p) { st64(p, 1024); st64(p + 8, 1024); }
		return 0;
	}
	case 5153: return -22;
	case 5194:
		switch (b & 127) {
		case 0:
			if (ld32(a) != (u32)d) return -11;
			c->addr = a;
			c->deadline = e ? timeout(e) : 0;
			c->state = FUTEX;
			return EBLOCK;
		case 1: {
			int k = 0;
			for (int i = 0; i < MAXCTX && (u64)k < d; i++)
				if (ctxs[i].state == FUTEX && ctxs[i].addr == a) {
					ctxs[i].state = READY;
					ctxs[i].r[2] = ctxs[i].r[7] = 0;
					k++;
				}
			return k;
		}
		}
		return -89;
	case 5196:
		memset(M + d, 0, b < 8 ? b : 8);
		st64(d, 1);
		return 8;
	case 5208:
		if (d != 1001) return -1;
		evdata = ld64(e + 8);
		return 0;
	case 5272:
		if (evcount) {
			st32(b, 1);
			st64(b + 8, evdata);
			return 1;
		}
		if (e == 0) return 0;
		c->addr = b;
		c->deadline = (s32)e < 0 ? 0 : now() + (u64)(s32)e * 1000000ull;
		c->state = EPOLL;
		return EBLOCK;
	case 5284: return 1001;
	case 5285: return 1000;
	case 5222: {
		struct timespec t;
		if (clock_gettime(a, &t) < 0) return host(-1);
		st64(b, t.tv_sec);
		st64(b + 8, t.tv_nsec);
		return 0;
	}
	case 5313: return host(getrandom(M + a, b, 0));
	case 5077: case 5061: case 5257: case 5253: return -2;
	}
	if (trace) fprintf(stderr, "emulator: system call %llu\n", (unsigned long long)n);
	return -89;
}

// pick makes another thread the current one.
static void pick(void) {
	for (;;) {
		u64 t = 0, first = 0;
		for (int k = 1; k <= MAXCTX; k++) {
			int i = (cur + k) % MAXCTX;
			ctx *c = &ctxs[i];
			if (c->state == READY) { cur = i; return; }
			if (c->state == FREE) continue;
			if (c->state == EPOLL && evcount) {
				st32(c->addr, 1);
				st64(c->addr + 8, evdata);
				c->r[2] = 1;
				c->r[7] = 0;
				c->state = READY;
				cur = i;
				return;
			}
			if (c->deadline) {
				if (!t) t = now();
				if (c->deadline <= t) {
					int was = c->state;
					c->state = READY;
					c->r[2] = was == FUTEX ? 145 : 0;
					c->r[7] = was == FUTEX;
					cur = i;
					return;
				}
				if (!first || c->deadline < first) first = c->deadline;
			}
		}
		if (!first) die(3, "emulator: all threads wait for ever", 0, 0);
		struct timespec d = {(first - t) / 1000000000, (first - t) % 1000000000};
		nanosleep(&d, 0);
	}
}

// expire makes sleepers whose time has come ready, now and then.
static void expire(void) {
	u64 t = 0;
	for (int i = 0; i < MAXCTX; i++) {
		ctx *c = &ctxs[i];
		if (c->state > READY && c->deadline) {
			if (!t) t = now();
			if (c->deadline <= t) {
				c->r[2] = c->state == FUTEX ? 145 : 0;
				c->r[7] = c->state == FUTEX;
				c->state = READY;
			}
		}
	}
}

static u64 pcaddr(u64 pc) { return text + 4 * pc; }

static void fault(int sig, siginfo_t *si, void *uc) {
	(void)uc;
	char b[200];
	u64 a = (u64)((u8 *)si->si_addr - M);
	int n = snprintf(b, sizeof b, "SIG%s: memory fault in the emulated program: address 0x%llx pc about 0x%llx ra 0x%llx\n", sig == SIGBUS ? "BUS" : "SEGV",
		(unsigned long long)a, (unsigned long long)pcaddr(*faultpc), (unsigned long long)ctxs[cur].r[31]);
	if (write(2, b, n)) {}
	_exit(9);
}

static void run(void) {
	static void *sp[64], *ri[32], *op[64], *s2[64];
	void *bad = &&bad;
	for (int i = 0; i < 64; i++) sp[i] = op[i] = s2[i] = bad;
	for (int i = 0; i < 32; i++) ri[i] = bad;
	sp[0] = &&sll; sp[2] = &&srl; sp[3] = &&sra; sp[4] = &&sllv; sp[6] = &&srlv; sp[7] = &&srav;
	sp[8] = &&jr; sp[9] = &&jalr; sp[10] = &&movz; sp[11] = &&movn; sp[12] = &&syscall; sp[13] = &&brk; sp[15] = &&nop;
	sp[16] = &&mfhi; sp[17] = &&mthi; sp[18] = &&mflo; sp[19] = &&mtlo; sp[20] = &&dsllv; sp[22] = &&dsrlv; sp[23] = &&dsrav;
	sp[24] = &&mult; sp[25] = &&multu; sp[26] = &&div; sp[27] = &&divu; sp[28] = &&dmult; sp[29] = &&dmultu; sp[30] = &&ddiv; sp[31] = &&ddivu;
	sp[32] = &&add; sp[33] = &&addu; sp[34] = &&sub; sp[35] = &&subu; sp[36] = &&and; sp[37] = &&or; sp[38] = &&xor; sp[39] = &&nor;
	sp[42] = &&slt; sp[43] = &&sltu; sp[44] = &&dadd; sp[45] = &&daddu; sp[46] = &&dsub; sp[47] = &&dsubu;
	sp[52] = &&teq; sp[54] = &&tne; sp[56] = &&dsll; sp[58] = &&dsrl; sp[59] = &&dsra; sp[60] = &&dsll32; sp[62] = &&dsrl32; sp[63] = &&dsra32;
	ri[0] = &&bltz; ri[1] = &&bgez; ri[16] = &&bltzal; ri[17] = &&bgezal;
	op[2] = &&j; op[3] = &&jal; op[4] = &&beq; op[5] = &&bne; op[6] = &&blez; op[7] = &&bgtz;
	op[8] = &&addi; op[9] = &&addiu; op[10] = &&slti; op[11] = &&sltiu; op[12] = &&andi; op[13] = &&ori; op[14] = &&xori; op[15] = &&lui;
	op[24] = &&daddi; op[25] = &&daddiu; op[26] = &&ldl; op[27] = &&ldr;
	op[32] = &&lb; op[33] = &&lh; op[34] = &&lwl; op[35] = &&lw; op[36] = &&lbu; op[37] = &&lhu; op[38] = &&lwr; op[39] = &&lwu;
	op[40] = &&sb; op[41] = &&sh; op[42] = &&swl; op[43] = &&sw; op[44] = &&sdl; op[45] = &&sdr; op[46] = &&swr; op[47] = &&nop; op[51] = &&nop;
	op[48] = &&ll; op[52] = &&lld; op[55] = &&ld; op[56] = &&sc; op[60] = &&scd; op[63] = &&sd;
	s2[0] = &&madd; s2[1] = &&maddu; s2[2] = &&mul; s2[4] = &&msub; s2[5] = &&msubu; s2[32] = &&clz; s2[33] = &&clo; s2[36] = &&dclz; s2[37] = &&dclo;
	for (u64 i = 0; i < ncode; i++) {
		u32 w = ld32(text + 4 * i);
		insn *x = &code[i];
		int o = w >> 26;
		x->a = w >> 21 & 31;
		x->b = w >> 16 & 31;
		x->c = w >> 11 & 31;
		x->sa = w >> 6 & 31;
		x->imm = (s16)w;
		if (o == 0) {
			x->h = sp[w & 63];
			if (!x->c && x->h != &&jalr) x->c = 32;
			if ((w & 63) == 2 && (w >> 21 & 1)) x->h = &&rotr;
			if ((w & 63) == 6 && (w >> 6 & 1)) x->h = &&rotrv;
			if ((w & 63) == 58 && (w >> 21 & 1)) x->h = &&drotr;
			if ((w & 63) == 62 && (w >> 21 & 1)) x->h = &&drotr32;
			if ((w & 63) == 22 && (w >> 6 & 1)) x->h = &&drotrv;
			if (x->h == &&jalr && !x->c) x->c = 32;
		} else if (o == 1) {
			x->h = ri[x->b];
		} else if (o == 28) {
			x->h = s2[w & 63];
			if (!x->c) x->c = 32;
		} else if (o == 31) {
			x->h = bad;
			if (!x->c) x->c = 32;
			switch (w & 63) {
			case 0: case 1: case 2: case 3: // ext, dextm, dext, dextu: position, size-1
				x->h = (w & 63) == 0 ? &&ext : &&dext;
				x->imm = (x->sa + ((w & 63) == 2 ? 32 : 0)) | ((w >> 11 & 31) + ((w & 63) == 1 ? 32 : 0)) << 8;
				if (!x->b) x->b = 32;
				break;
			case 4: case 5: case 6: case 7: // ins, dinsm, dinsu, dins: position, msb
				x->h = (w & 63) == 4 ? &&ins : &&dins;
				x->imm = (x->sa + ((w & 63) == 6 ? 32 : 0)) | ((w >> 11 & 31) + ((w & 63) == 5 || (w & 63) == 6 ? 32 : 0)) << 8;
				if (!x->b) x->b = 32;
				break;
			case 32:
				switch (x->sa) {
				case 2: x->h = &&wsbh; break;
				case 16: x->h = &&seb; break;
				case 24: x->h = &&seh; break;
				}
				break;
			case 36:
				switch (x->sa) {
				case 2: x->h = &&dsbh; break;
				case 5: x->h = &&dshd; break;
				}
				break;
			case 59:
				x->h = &&rdhwr;
				if (!x->b) x->b = 32;
				break;
			}
		} else {
			x->h = op[o];
			if (o == 2 || o == 3) {
				x->imm = (s32)(((((text + 4 * i + 4) & ~0xfffffffull) | (u64)(w & 0x3ffffff) << 2) - text) / 4);
			} else if (o >= 4 && o <= 7) {
			} else if ((o >= 8 && o <= 27) || (o >= 32 && o <= 39) || o == 48 || o == 52 || o == 55 || o == 56 || o == 60) {
				if (!x->b && o != 56 && o != 60) x->b = 32;
				if (o >= 12 && o <= 15) x->imm = w & 0xffff;
			}
			if ((o == 56 || o == 60) && !x->b) x->h = bad;
		}
		if (o == 1 && x->h == bad && w == 0) x->h = &&nop;
	}

	ctx *c = &ctxs[cur];
	u64 *r = c->r;
	u64 pc = c->pc, npc = c->npc;
	s64 budget = 20000;
	insn *i;
	u64 a;
	volatile u64 fpc;
	faultpc = &fpc;

#define SX(x) ((u64)(s64)(s32)(x))
#define NEXT do { if (__builtin_expect(--budget < 0, 0)) goto sched; i = &code[pc]; pc = npc; npc = pc + 1; goto *i->h; } while (0)
#define RS r[i->a]
#define RT r[i->b]
#define RD r[i->c]
#define TAKE (npc = pc + (s64)i->imm)
#define ADDR do { a = RS + (s64)i->imm; fpc = pc - 1; if (__builtin_expect(a >= SPACE - 16, 0)) goto badaddr; } while (0)
	if (pc >= ncode) goto badpc;
	NEXT;
sched:
	c->pc = pc;
	c->npc = npc;
	expire();
	pick();
	goto load;
load:
	c = &ctxs[cur];
	r = c->r;
	pc = c->pc;
	npc = c->npc;
	budget = 20000;
	NEXT;
bad:
	c->pc = pc;
	die(3, "emulator: unknown instruction %08llx at %llx", ld32((u64)(i - code) * 4 + text), (u64)(i - code) * 4 + text);
badaddr:
	fprintf(stderr, "SIGSEGV: memory fault in the emulated program: address %llx\n", (unsigned long long)a);
	die(9, "pc %llx ra %llx", (u64)(i - code) * 4 + text, r[31]);
badpc:
	die(9, "SIGSEGV: jump outside of the program: %llx from about %llx", pcaddr(pc), r[31]);
trap:
	die(9, "SIGTRAP: trap in the emulated program: pc %llx ra %llx", (u64)(i - code) * 4 + text, r[31]);
nop: NEXT;
sll: RD = SX((u32)RT << i->sa); NEXT;
srl: RD = SX((u32)RT >> i->sa); NEXT;
sra: RD = SX((s32)RT >> i->sa); NEXT;
rotr: { u32 x = RT; RD = SX(i->sa ? x >> i->sa | x << (32 - i->sa) : x); } NEXT;
sllv: RD = SX((u32)RT << (RS & 31)); NEXT;
srlv: RD = SX((u32)RT >> (RS & 31)); NEXT;
srav: RD = SX((s32)RT >> (RS & 31)); NEXT;
rotrv: { u32 x = RT; int k = RS & 31; RD = SX(k ? x >> k | x << (32 - k) : x); } NEXT;
jr: a = RS; goto jump;
jalr: a = RS; RD = pcaddr(npc); goto jump;
jump:
	if (__builtin_expect(a - text >= textend - text || (a & 3), 0)) { die(9, "SIGSEGV: jump outside of the program: %llx from %llx", a, (u64)(i - code) * 4 + text); }
	npc = (a - text) / 4;
	NEXT;
movz: if (RT == 0) RD = RS; NEXT;
movn: if (RT != 0) RD = RS; NEXT;
brk: goto trap;
teq: if (RS == RT) goto trap; NEXT;
tne: if (RS != RT) goto trap; NEXT;
mfhi: RD = c->hi; NEXT;
mthi: c->hi = RS; NEXT;
mflo: RD = c->lo; NEXT;
mtlo: c->lo = RS; NEXT;
dsllv: RD = RT << (RS & 63); NEXT;
dsrlv: RD = RT >> (RS & 63); NEXT;
dsrav: RD = (s64)RT >> (RS & 63); NEXT;
drotrv: { int k = RS & 63; RD = k ? RT >> k | RT << (64 - k) : RT; } NEXT;
mult: { s64 x = (s64)(s32)RS * (s32)RT; c->lo = SX(x); c->hi = SX(x >> 32); } NEXT;
multu: { u64 x = (u64)(u32)RS * (u32)RT; c->lo = SX(x); c->hi = SX(x >> 32); } NEXT;
div: { s32 x = RS, y = RT; if (y == 0) { c->lo = 0; c->hi = x; } else if (y == -1) { c->lo = SX(-(u32)x); c->hi = 0; } else { c->lo = SX(x / y); c->hi = SX(x % y); } } NEXT;
divu: { u32 x = RS, y = RT; if (y) { c->lo = SX(x / y); c->hi = SX(x % y); } } NEXT;
dmult: { s128 x = (s128)(s64)RS * (s64)RT; c->lo = x; c->hi = x >> 64; } NEXT;
dmultu: { u128 x = (u128)RS * RT; c->lo = x; c->hi = x >> 64; } NEXT;
ddiv: { s64 x = RS, y = RT; if (y == 0) { c->lo = 0; c->hi = x; } else if (y == -1) { c->lo = -(u64)x; c->hi = 0; } else { c->lo = x / y; c->hi = x % y; } } NEXT;
ddivu: { u64 x = RS, y = RT; if (y) { c->lo = x / y; c->hi = x % y; } } NEXT;
add: { s64 x = (s64)(s32)RS + (s32)RT; if (x != (s32)x) goto trap; RD = x; } NEXT;
addu: RD = SX((u32)RS + (u32)RT); NEXT;
sub: { s64 x = (s64)(s32)RS - (s32)RT; if (x != (s32)x) goto trap; RD = x; } NEXT;
subu: RD = SX((u32)RS - (u32)RT); NEXT;
and: RD = RS & RT; NEXT;
or: RD = RS | RT; NEXT;
xor: RD = RS ^ RT; NEXT;
nor: RD = ~(RS | RT); NEXT;
slt: RD = (s64)RS < (s64)RT; NEXT;
sltu: RD = RS < RT; NEXT;
dadd: { s64 x; if (__builtin_add_overflow((s64)RS, (s64)RT, &x)) goto trap; RD = x; } NEXT;
daddu: RD = RS + RT; NEXT;
dsub: { s64 x; if (__builtin_sub_overflow((s64)RS, (s64)RT, &x)) goto trap; RD = x; } NEXT;
dsubu: RD = RS - RT; NEXT;
dsll: RD = RT << i->sa; NEXT;
dsrl: RD = RT >> i->sa; NEXT;
dsra: RD = (s64)RT >> i->sa; NEXT;
dsll32: RD = RT << (i->sa + 32); NEXT;
dsrl32: RD = RT >> (i->sa + 32); NEXT;
dsra32: RD = (s64)RT >> (i->sa + 32); NEXT;
drotr: { int k = i->sa; RD = k ? RT >> k | RT << (64 - k) : RT; } NEXT;
drotr32: { int k = i->sa + 32; RD = RT >> k | RT << (64 - k); } NEXT;
bltz: if ((s64)RS < 0) TAKE; NEXT;
bgez: if ((s64)RS >= 0) TAKE; NEXT;
bltzal: { int t = (s64)RS < 0; r[31] = pcaddr(npc); if (t) TAKE; } NEXT;
bgezal: { int t = (s64)RS >= 0; r[31] = pcaddr(npc); if (t) TAKE; } NEXT;
j: npc = (u64)i->imm; NEXT;
jal: r[31] = pcaddr(npc); npc = (u64)i->imm; NEXT;
beq: if (RS == RT) TAKE; NEXT;
bne: if (RS != RT) TAKE; NEXT;
blez: if ((s64)RS <= 0) TAKE; NEXT;
bgtz: if ((s64)RS > 0) TAKE; NEXT;
addi: { s64 x = (s64)(s32)RS + i->imm; if (x != (s32)x) goto trap; RT = x; } NEXT;
addiu: RT = SX((u32)RS + (u32)i->imm); NEXT;
slti: RT = (s64)RS < (s64)i->imm; NEXT;
sltiu: RT = RS < (u64)(s64)i->imm; NEXT;
andi: RT = RS & (u64)i->imm; NEXT;
ori: RT = RS | (u64)i->imm; NEXT;
xori: RT = RS ^ (u64)i->imm; NEXT;
lui: RT = SX((u32)i->imm << 16); NEXT;
daddi: { s64 x; if (__builtin_add_overflow((s64)RS, (s64)i->imm, &x)) goto trap; RT = x; } NEXT;
daddiu: RT = RS + (s64)i->imm; NEXT;
lb: ADDR; RT = (s64)(s8)M[a]; NEXT;
lbu: ADDR; RT = M[a]; NEXT;
lh: ADDR; { u16 x; memcpy(&x, M + a, 2); RT = (s64)(s16)__builtin_bswap16(x); } NEXT;
lhu: ADDR; { u16 x; memcpy(&x, M + a, 2); RT = __builtin_bswap16(x); } NEXT;
lw: ADDR; RT = SX(ld32(a)); NEXT;
lwu: ADDR; RT = ld32(a); NEXT;
ld: ADDR; RT = ld64(a); NEXT;
ll: ADDR; RT = SX(ld32(a)); budget = budget < 50 ? 50 : budget; NEXT;
lld: ADDR; RT = ld64(a); budget = budget < 50 ? 50 : budget; NEXT;
sb: ADDR; M[a] = RT; NEXT;
sh: ADDR; { u16 x = __builtin_bswap16((u16)RT); memcpy(M + a, &x, 2); } NEXT;
sw: ADDR; st32(a, RT); NEXT;
sd: ADDR; st64(a, RT); NEXT;
sc: ADDR; st32(a, RT); RT = 1; NEXT;
scd: ADDR; st64(a, RT); RT = 1; NEXT;
lwl: ADDR; { int k = a & 3; u32 x = ld32(a & ~3ull); RT = SX(k ? (x << 8 * k | ((u32)RT & ((1u << 8 * k) - 1))) : x); } NEXT;
lwr: ADDR; { int k = 3 - (a & 3); u32 x = ld32(a & ~3ull); RT = SX(k ? (x >> 8 * k | ((u32)RT & ~(~0u >> 8 * k))) : x); } NEXT;
swl: ADDR; { int k = a & 3; for (int q = 0; q < 4 - k; q++) M[a + q] = (u32)RT >> (24 - 8 * q); } NEXT;
swr: ADDR; { int k = a & 3; for (int q = 0; q <= k; q++) M[a - q] = (u32)RT >> 8 * q; } NEXT;
ldl: ADDR; { int k = a & 7; u64 x = ld64(a & ~7ull); RT = k ? (x << 8 * k | (RT & ((1ull << 8 * k) - 1))) : x; } NEXT;
ldr: ADDR; { int k = 7 - (a & 7); u64 x = ld64(a & ~7ull); RT = k ? (x >> 8 * k | (RT & ~(~0ull >> 8 * k))) : x; } NEXT;
sdl: ADDR; { int k = a & 7; for (int q = 0; q < 8 - k; q++) M[a + q] = RT >> (56 - 8 * q); } NEXT;
sdr: ADDR; { int k = a & 7; for (int q = 0; q <= k; q++) M[a - q] = RT >> 8 * q; } NEXT;
madd: { u64 x = (u64)(u32)c->hi << 32 | (u32)c->lo; x += (s64)(s32)RS * (s32)RT; c->lo = SX(x); c->hi = SX(x >> 32); } NEXT;
maddu: { u64 x = (u64)(u32)c->hi << 32 | (u32)c->lo; x += (u64)(u32)RS * (u32)RT; c->lo = SX(x); c->hi = SX(x >> 32); } NEXT;
msub: { u64 x = (u64)(u32)c->hi << 32 | (u32)c->lo; x -= (s64)(s32)RS * (s32)RT; c->lo = SX(x); c->hi = SX(x >> 32); } NEXT;
msubu: { u64 x = (u64)(u32)c->hi << 32 | (u32)c->lo; x -= (u64)(u32)RS * (u32)RT; c->lo = SX(x); c->hi = SX(x >> 32); } NEXT;
mul: RD = SX((u32)RS * (u32)RT); NEXT;
clz: { u32 x = RS; RD = x ? __builtin_clz(x) : 32; } NEXT;
clo: { u32 x = ~(u32)RS; RD = x ? __builtin_clz(x) : 32; } NEXT;
dclz: { u64 x = RS; RD = x ? __builtin_clzll(x) : 64; } NEXT;
dclo: { u64 x = ~RS; RD = x ? __builtin_clzll(x) : 64; } NEXT;
ext: { int p = i->imm & 255, m = i->imm >> 8; RT = SX(((u32)RS >> p) & (m == 31 ? ~0u : (1u << (m + 1)) - 1)); } NEXT;
dext: { int p = i->imm & 255, m = i->imm >> 8; RT = (RS >> p) & (m == 63 ? ~0ull : (1ull << (m + 1)) - 1); } NEXT;
ins: { int p = i->imm & 255, m = (i->imm >> 8) - p; u32 k = (m == 31 ? ~0u : (1u << (m + 1)) - 1) << p; RT = SX(((u32)RT & ~k) | ((u32)RS << p & k)); } NEXT;
dins: { int p = i->imm & 255, m = (i->imm >> 8) - p; u64 k = (m == 63 ? ~0ull : (1ull << (m + 1)) - 1) << p; RT = (RT & ~k) | (RS << p & k); } NEXT;
wsbh: { u32 x = RT; RD = SX((x >> 8 & 0x00ff00ff) | (x & 0x00ff00ff) << 8); } NEXT;
dsbh: { u64 x = RT; RD = (x >> 8 & 0x00ff00ff00ff00ffull) | (x & 0x00ff00ff00ff00ffull) << 8; } NEXT;
dshd: { u64 x = RT; x = x >> 32 | x << 32; RD = (x >> 16 & 0x0000ffff0000ffffull) | (x & 0x0000ffff0000ffffull) << 16; } NEXT;
seb: RD = (s64)(s8)RT; NEXT;
seh: RD = (s64)(s16)RT; NEXT;
rdhwr: RT = 0; NEXT;
syscall: {
	u64 n = r[2];
	fpc = pc - 1;
	c->pc = pc;
	c->npc = npc;
	s64 x = sys(c, n, r[4], r[5], r[6], r[7]);
	if (trace > 1) fprintf(stderr, "[%d] sys %llu (%llx %llx %llx %llx) = %lld\n", c->tid, (unsigned long long)n, (unsigned long long)r[4], (unsigned long long)r[5], (unsigned long long)r[6], (unsigned long long)r[7], (long long)x);
	if (x == EBLOCK || n == 5023) {
		if (n == 5023) { r[2] = 0; r[7] = 0; }
		pick();
		goto load;
	}
	if (x < 0 && x > -4096) {
		r[2] = -x;
		r[7] = 1;
	} else {
		r[2] = x;
		r[7] = 0;
	}
	NEXT;
}
}

static u16 g16(u8 *p) { return p[0] << 8 | p[1]; }
static u32 g32(u8 *p) { return (u32)g16(p) << 16 | g16(p + 2); }
static u64 g64(u8 *p) { return (u64)g32(p) << 32 | g32(p + 4); }

int main(int argc, char **argv) {
	if (argc < 2) return 3;
	trace = getenv("EMU_TRACE") ? atoi(getenv("EMU_TRACE")) : 0;
	M = mmap(0, SPACE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pages = mmap(0, SPACE / PAGE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (M == MAP_FAILED || pages == MAP_FAILED) { perror("emulator: mmap"); return 3; }
	int fd = open(argv[1], O_RDONLY);
	struct stat st;
	if (fd < 0 || fstat(fd, &st) < 0) { perror("emulator: program"); return 3; }
	u8 *f = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
	if (f == MAP_FAILED || memcmp(f, "\x7f""ELF\x02\x02", 6) || g16(f + 18) != 8) { fprintf(stderr, "emulator: not a big-endian MIPS64 program\n"); return 3; }
	u64 entry = g64(f + 24), ph = g64(f + 32);
	int n = g16(f + 56), sz = g16(f + 54);
	for (int k = 0; k < n; k++) {
		u8 *p = f + ph + k * sz;
		if (g32(p) != 1) continue;
		u64 off = g64(p + 8), va = g64(p + 16), fs = g64(p + 32), ms = g64(p + 40);
		u64 lo = va & ~(PAGE - 1), hi = (va + ms + PAGE - 1) & ~(PAGE - 1);
		do_mmap(lo, hi - lo, 3, 0x812);
		memcpy(M + va, f + off, fs);
		if (g32(p + 4) & 1) { text = va; textend = va + (fs & ~3ull); }
		if (!(g32(p + 4) & 2)) mprotect(M + lo, hi - lo, PROT_READ);
	}
	ncode = (textend - text) / 4;
	code = calloc(ncode + 1, sizeof *code);
	u64 top = 0x2000000000ull, size = 8 << 20;
	do_mmap(top - size, size, 3, 0x812);
	u64 s = top - 4096;
	u64 args[512];
	int na = 0, ac = argc - 1;
	for (int k = 1; k < argc; k++) { s -= strlen(argv[k]) + 1; strcpy(str(s), argv[k]); args[na++] = s; if (na > 200) return 3; }
	args[na++] = 0;
	extern char **environ;
	for (char **e = environ; *e; e++) {
		if (strncmp(*e, "GO", 2)) continue;
		s -= strlen(*e) + 1;
		strcpy(str(s), *e);
		args[na++] = s;
		if (na > 400) return 3;
	}
	args[na++] = 0;
	s -= 16;
	u64 rnd = s;
	if (getrandom(M + rnd, 16, 0) != 16) return 3;
	u64 aux[] = {6, 4096, 25, rnd, 0, 0};
	for (int k = 0; k < 6; k++) args[na++] = aux[k];
	s = (s - 8 * (na + 1)) & ~15ull;
	st64(s, ac);
	for (int k = 0; k < na; k++) st64(s + 8 + 8 * k, args[k]);
	ctxs[0].state = READY;
	ctxs[0].tid = 1000;
	ctxs[0].r[29] = s;
	ctxs[0].pc = (entry - text) / 4;
	ctxs[0].npc = ctxs[0].pc + 1;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = fault;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGSEGV, &sa, 0);
	sigaction(SIGBUS, &sa, 0);
	run();
	return 3;
}
