/* one call of a string function; included for the plain (F(x) = x) and for the transactional functions (F(x) = x_tx) */
static long OPS(int f, char* B, const long* a, const unsigned char* in, unsigned char* o, int* on)
{
#define P(i) (B + a[i])
#define REL(e) ({ char* q_ = (char*)(e); q_ ? (long)(q_ - B) : -1L; })
#define SGN(e) ({ int q_ = (e); q_ < 0 ? -1L : q_ > 0 ? 1L : 0L; })
    char* d;
    PRIVTM();
    switch (f) {
    case F_load: LOAD(P(0), o, a[1]); *on = a[1]; return 0;
    case F_store: STORE(P(0), in, a[1]); return 0;
    case F_privload: PRIV(P(0), a[1], PICOTM_TM_PRIVATIZE_LOAD); memcpy(o, P(0), a[1]); *on = a[1]; return 0;
    case F_privstore: PRIV(P(0), a[1], PICOTM_TM_PRIVATIZE_STORE); memcpy(P(0), in, a[1]); return 0;
    case F_memccpy: return REL(F(memccpy)(P(0), P(1), a[2], a[3]));
    case F_memchr: return REL(F(memchr)(P(0), a[1], a[2]));
    case F_memrchr: return REL(F(memrchr)(P(0), a[1], a[2]));
    case F_rawmemchr: return REL(F(rawmemchr)(P(0), a[1]));
    case F_memcmp: return SGN(F(memcmp)(P(0), P(1), a[2]));
    case F_memcpy: return REL(F(memcpy)(P(0), P(1), a[2]));
    case F_memmove: return REL(F(memmove)(P(0), P(1), a[2]));
    case F_memset: return REL(F(memset)(P(0), a[1], a[2]));
    case F_stpcpy: return REL(F(stpcpy)(P(0), P(1)));
    case F_strcpy: return REL(F(strcpy)(P(0), P(1)));
    case F_stpncpy: return REL(F(stpncpy)(P(0), P(1), a[2]));
    case F_strncpy: return REL(F(strncpy)(P(0), P(1), a[2]));
    case F_strcat: return REL(F(strcat)(P(0), P(1)));
    case F_strncat: return REL(F(strncat)(P(0), P(1), a[2]));
    case F_strchr: return REL(F(strchr)(P(0), a[1]));
    case F_strrchr: return REL(F(strrchr)(P(0), a[1]));
    case F_strcmp: return SGN(F(strcmp)(P(0), P(1)));
    case F_strcoll_l: return SGN(F(strcoll_l)(P(0), P(1), c_locale));
    case F_strncmp: return SGN(F(strncmp)(P(0), P(1), a[2]));
    case F_strcspn: return F(strcspn)(P(0), P(1));
    case F_strspn: return F(strspn)(P(0), P(1));
    case F_strpbrk: return REL(F(strpbrk)(P(0), P(1)));
    case F_strlen: return F(strlen)(P(0));
    case F_strnlen: return F(strnlen)(P(0), a[1]);
    case F_strdup: d = F(strdup)(P(0)); *on = strlen(d) + 1; memcpy(o, d, *on); F(free)(d); return 0;
    case F_strndup: d = F(strndup)(P(0), a[1]); *on = strlen(d) + 1; memcpy(o, d, *on); F(free)(d); return 0;
    case F_strstr: return REL(F(strstr)(P(0), P(1)));
    case F_strtok_r: return REL(F(strtok_r)(a[0] < 0 ? NULL : P(0), P(1), &SAVE));
    case F_printf_s: return F(snprintf)(P(0), a[1], "<%s>", P(2));
    case F_printf_d: return F(snprintf)(P(0), a[1], "%d", (int)a[2]);
    case F_printf_sx: return F(snprintf)(P(0), a[1], "%s%%%x", P(2), (int)a[3]);
    case F_scanf_d: return F(sscanf)(P(0), "%d", (int*)P(1));
    case F_strftime: { struct tm t = { .tm_hour = a[2], .tm_min = a[3] }; return F(strftime)(P(0), a[1], "%H:%M", &t); }
    case F_qsort: F(qsort)(P(0), a[1], 1, bytecmp); return 0;
#define PFC(i, c, t) case i: return F(snprintf)(P(0), a[1], "%" c "|%s", (t)a[4], P(2));
    case F_pf: switch (a[3]) { PF(PFC) } break;
#undef PFC
#define PNC(i, c, t) case i: return F(snprintf)(P(0), a[1], "<%s>%" c, P(2), (t*)P(4));
    case F_pn: switch (a[3]) { PN(PNC) } break;
#undef PNC
#define SFC(i, c, t, b) case i: return F(sscanf)(P(0), "%" c "%n", (t*)P(1), (int*)P(4));
    case F_sf: switch (a[3]) { SF(SFC) } break;
#undef SFC
    case F_strerror_g: d = F(__strerror_r_gnu)(a[2], P(0), a[1]); *on = a[1] ? strlen(d) + 1 : 0; memcpy(o, d, *on); return d == P(0);
    case F_strerror_p: return F(__strerror_r_posix)(a[2], P(0), a[1]);
    case F_rand_r: return F(rand_r)((unsigned*)P(0));
    case F_strptime: return REL(F(strptime)(P(0), "%H:%M", (struct tm*)P(1)));
    case F_strftime_r: return a[1] & 1 ? F(strftime_l)(P(0), a[1], "%H:%M", (struct tm*)P(2), c_locale) : F(strftime)(P(0), a[1], "%H:%M", (struct tm*)P(2));
    }
    abort();
}
#undef P
#undef REL
#undef SGN
