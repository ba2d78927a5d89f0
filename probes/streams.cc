#include "probe.h"
// binary streams: see lib/streams.py for what each operation has to do
PROBE (istream_ctor_os,		"new:istream ostream",		(void* m, const ostream& o),	new (m) istream (o))
PROBE (istream_ctor_cml,	"new:istream cmemlink",		(void* m, const cmemlink& o),	new (m) istream (o))
PROBE (istream_link,		"istream buf:2 n",		(istream& s, const void* p, size_t n),	s.link (p, n))
PROBE (istream_link_cml,	"istream cmemlink",		(istream& s, const cmemlink& l),	s.link (l))
PROBE (istream_relink,		"istream buf:2 n",		(istream& s, const void* p, size_t n),	s.relink (p, n))
PROBE (istream_relink_cml,	"istream cmemlink",		(istream& s, const cmemlink& l),	s.relink (l))
PROBE (istream_unlink,		"istream",			(istream& s),	s.unlink())
PROBE (istream_swap,		"istream istream",		(istream& s, istream& t),	s.swap (t))
PROBE (istream_seek,		"istream n",			(istream& s, size_t n),	s.seek (n))
PROBE (istream_seekg_beg,	"istream n",			(istream& s, size_t n),	s.seekg (n))
PROBE (istream_seekg_cur,	"istream n",			(istream& s, size_t n),	s.seekg (n, ios_base::cur))
PROBE (istream_seekg_back,	"istream n",			(istream& s, size_t n),	s.seekg (-off_t(n), ios_base::cur))
PROBE (istream_seekg_end,	"istream n",			(istream& s, size_t n),	s.seekg (n, ios_base::end))
PROBE (istream_iseek,		"istream it:0",			(istream& s, istream::const_iterator i),	s.iseek (i))
PROBE (istream_skip,		"istream n",			(istream& s, size_t n),	s.skip (n))
PROBE (istream_ungetc,		"istream",			(istream& s),	s.ungetc())
PROBE (istream_align1,		"istream",			(istream& s),	s.align (1))
PROBE (istream_align2,		"istream",			(istream& s),	s.align (2))
PROBE (istream_align4,		"istream",			(istream& s),	s.align (4))
PROBE (istream_align8,		"istream",			(istream& s),	s.align (8))
PROBE (istream_align16,		"istream",			(istream& s),	s.align (16))
PROBE (istream_align,		"istream",			(istream& s),	s.align())
PROBE (istream_read,		"istream wbuf:2 n",		(istream& s, void* p, size_t n),	s.read (p, n))
PROBE (istream_read_ml,		"istream memlink",		(istream& s, memlink& m),	s.read (m))
PROBER (size_t, istream_readsome,	"istream wbuf:2 n",	(istream& s, void* p, size_t n),	return s.readsome (p, n))
PROBER (size_t, istream_underflow,	"istream n",		(istream& s, size_t n),	return s.underflow (n))
PROBE (istream_read_strz,	"istream string",		(istream& s, string& v),	s.read_strz (v))
PROBE (istream_write,		"istream ostream",		(const istream& s, ostream& o),	s.write (o))
PROBER (bool, istream_verify,	"istream n",			(istream& s, size_t n),	return s.verify_remaining ("read", "x", n))
#define RD(t,tn) \
PROBE (istream_iread_##tn,	"istream out:" #tn,		(istream& s, t& v),	s.iread (v)) \
PROBE (istream_rd_##tn,		"istream out:" #tn,		(istream& s, t& v),	s >> v) \
PROBE (ostream_iwrite_##tn,	"ostream in:" #tn,		(ostream& s, const t& v),	s.iwrite (v)) \
PROBE (ostream_wr_##tn,		"ostream in:" #tn,		(ostream& s, const t& v),	s << v) \
extern "C" const unsigned Z_##tn __attribute__((used)) = sizeof(t);
typedef long long llong; typedef unsigned long long ullong; typedef unsigned char uchar; typedef signed char schar;
typedef unsigned short ushort_; typedef unsigned int uint_; typedef unsigned long ulong_;
RD(bool,bool) RD(char,char) RD(schar,schar) RD(uchar,uchar) RD(short,short) RD(ushort_,ushort_) RD(int,int) RD(uint_,uint_)
RD(long,long) RD(ulong_,ulong_) RD(llong,llong) RD(ullong,ullong) RD(float,float) RD(double,double) RD(wchar_t,wchar_t)

PROBE (ostream_link,		"ostream wbuf:2 n",		(ostream& s, void* p, size_t n),	s.link (p, n))
PROBE (ostream_link_ml,		"ostream memlink",		(ostream& s, memlink& l),	s.link (l))
PROBE (ostream_relink,		"ostream wbuf:2 n",		(ostream& s, void* p, size_t n),	s.relink (p, n))
PROBE (ostream_relink_ml,	"ostream memlink",		(ostream& s, memlink& l),	s.relink (l))
PROBE (ostream_unlink,		"ostream",			(ostream& s),	s.unlink())
PROBE (ostream_swap,		"ostream ostream",		(ostream& s, ostream& t),	s.swap (t))
PROBE (ostream_seek,		"ostream n",			(ostream& s, size_t n),	s.seek (n))
PROBE (ostream_seekp_beg,	"ostream n",			(ostream& s, size_t n),	s.seekp (n))
PROBE (ostream_seekp_cur,	"ostream n",			(ostream& s, size_t n),	s.seekp (n, ios_base::cur))
PROBE (ostream_seekp_back,	"ostream n",			(ostream& s, size_t n),	s.seekp (-off_t(n), ios_base::cur))
PROBE (ostream_seekp_end,	"ostream n",			(ostream& s, size_t n),	s.seekp (n, ios_base::end))
PROBE (ostream_iseek,		"ostream it:0",			(ostream& s, ostream::const_iterator i),	s.iseek (i))
PROBE (ostream_skip,		"ostream n",			(ostream& s, size_t n),	s.skip (n))
PROBE (ostream_align1,		"ostream",			(ostream& s),	s.align (1))
PROBE (ostream_align2,		"ostream",			(ostream& s),	s.align (2))
PROBE (ostream_align4,		"ostream",			(ostream& s),	s.align (4))
PROBE (ostream_align8,		"ostream",			(ostream& s),	s.align (8))
PROBE (ostream_align16,		"ostream",			(ostream& s),	s.align (16))
PROBE (ostream_align,		"ostream",			(ostream& s),	s.align())
PROBE (ostream_write,		"ostream buf:2 n",		(ostream& s, const void* p, size_t n),	s.write (p, n))
PROBE (ostream_write_cml,	"ostream cmemlink",		(ostream& s, const cmemlink& l),	s.write (l))
PROBE (ostream_write_strz,	"ostream cstr",			(ostream& s, const char* p),	s.write_strz (p))
PROBE (ostream_write_os,	"ostream ostream",		(const ostream& s, ostream& o),	s.write (o))
PROBE (ostream_read,		"ostream istream",		(ostream& s, istream& i),	s.read (i))
PROBE (ostream_insert,		"ostream it:0 n",		(ostream& s, ostream::iterator i, size_t n),	s.insert (i, n))
PROBE (ostream_erase,		"ostream wr:0:2 n",		(ostream& s, ostream::iterator i, size_t n),	s.erase (i, n))
PROBER (bool, ostream_verify,	"ostream n",			(ostream& s, size_t n),	return s.verify_remaining ("write", "x", n))
PROBER (size_t, ostream_overflow,	"ostream n",		(ostream& s, size_t n),	return s.overflow (n))
PROBE (mlo_ialign,		"istream",			(istream& s),	s >> ios::align (8))
PROBE (mlo_oalign,		"ostream",			(ostream& s),	s << ios::align (8))
PROBE (mlo_iskip,		"istream n",			(istream& s, size_t n),	s >> ios::skip (n))
PROBE (mlo_oskip,		"ostream n",			(ostream& s, size_t n),	s << ios::skip (n))
PROBE (cmemlink_wr,		"ostream cmemlink",		(ostream& s, const cmemlink& l),	l.write (s))

#define ACC(c,f,r,...) extern "C" __attribute__((used)) r A_##c##_##f (const c& o) { typedef r r_t; return r_t (__VA_ARGS__); }
ACC(istream,state,uint16_t,o.rdstate()) ACC(istream,exc,uint16_t,o.exceptions())
ACC(ostream,state,uint16_t,o.rdstate()) ACC(ostream,exc,uint16_t,o.exceptions())
