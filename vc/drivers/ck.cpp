/* composite keys of CKN components (-DN=1..10), with opaque user functions: key extractor kf(i,&value),
 * comparison lt(i,a,b), equality eq(i,a,b), hash hf(i,a). CKM_ (1..CKN) is the length of shorter operands */
#include <boost/multi_index/composite_key.hpp>
#include <boost/preprocessor/repetition/enum.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>
#include <tuple>
#ifndef CKM_
#define CKM_ CKN
#endif
using namespace boost::multi_index;
struct S{int v;};
extern "C" { int kf(int i,const S*); bool lt(int i,int a,int b); bool eq(int i,int a,int b); std::size_t hf(int i,int a); }
template<int I> struct KX{ typedef int result_type; int operator()(const S& s)const{return kf(I,&s);} };
template<int I> struct L{ bool operator()(int a,int b)const{return lt(I,a,b);} };
template<int I> struct Q{ bool operator()(int a,int b)const{return eq(I,a,b);} };
template<int I> struct Hf{ std::size_t operator()(int a)const{return hf(I,a);} };
/* components with their own ==, <, for the operators of composite_key_result itself */
template<int I> struct V{int v;};
template<int I> bool operator==(V<I> a,V<I> b){return eq(I,a.v,b.v);}
template<int I> bool operator<(V<I> a,V<I> b){return lt(I,a.v,b.v);}
template<int I> struct KV{ typedef V<I> result_type; V<I> operator()(const S& s)const{V<I> r={kf(I,&s)};return r;} };
#define A(z,n,T) T<n>
#define INT(z,n,T) int
typedef composite_key<S,BOOST_PP_ENUM(CKN,A,KX)> CK; typedef composite_key<S,BOOST_PP_ENUM(CKM_,A,KX)> CKM;
typedef composite_key<S,BOOST_PP_ENUM(CKN,A,KV)> CV;
typedef composite_key_compare<BOOST_PP_ENUM(CKN,A,L)> CMP;
typedef composite_key_equal_to<BOOST_PP_ENUM(CKN,A,Q)> EQ;
typedef composite_key_hash<BOOST_PP_ENUM(CKN,A,Hf)> HS;
typedef boost::tuple<BOOST_PP_ENUM(CKM_,INT,_)> BM; typedef std::tuple<BOOST_PP_ENUM(CKM_,INT,_)> SM;
typedef boost::tuple<BOOST_PP_ENUM(CKN,INT,_)> BN; typedef std::tuple<BOOST_PP_ENUM(CKN,INT,_)> SN;
typedef boost::tuple<BOOST_PP_ENUM(CKN,A,V)> BV; typedef std::tuple<BOOST_PP_ENUM(CKN,A,V)> SV;
extern "C" {
#define G(z,n,_) int bt##n(const BN* t){return t->get<n>();} int stt##n(const SN* t){return std::get<n>(*t);} int bv##n(const BV* t){return t->get<n>().v;} int sv##n(const SV* t){return std::get<n>(*t).v;}
BOOST_PP_REPEAT(CKN,G,_)
#define GM(z,n,_) int bm##n(const BM* t){return t->get<n>();} int sm##n(const SM* t){return std::get<n>(*t);}
BOOST_PP_REPEAT(CKM_,GM,_)
/* composite_key_compare */
bool c_kk(const S* x,const S* y){return CMP()(CK()(*x),CK()(*y));}
bool c_kkm(const S* x,const S* y){return CMP()(CK()(*x),CKM()(*y));}
bool c_kmk(const S* x,const S* y){return CMP()(CKM()(*x),CK()(*y));}
bool c_kb(const S* x,const BM* y){return CMP()(CK()(*x),*y);}
bool c_bk(const BM* x,const S* y){return CMP()(*x,CK()(*y));}
bool c_ks(const S* x,const SM* y){return CMP()(CK()(*x),*y);}
bool c_sk(const SM* x,const S* y){return CMP()(*x,CK()(*y));}
bool c_kv(const S* x,int y){return CMP()(CK()(*x),y);}
bool c_vk(int x,const S* y){return CMP()(x,CK()(*y));}
/* composite_key_equal_to, composite_key_hash */
bool e_kk(const S* x,const S* y){return EQ()(CK()(*x),CK()(*y));}
bool e_kb(const S* x,const BN* y){return EQ()(CK()(*x),*y);}
bool e_bk(const BN* x,const S* y){return EQ()(*x,CK()(*y));}
bool e_ks(const S* x,const SN* y){return EQ()(CK()(*x),*y);}
bool e_sk(const SN* x,const S* y){return EQ()(*x,CK()(*y));}
std::size_t h_k(const S* x){return HS()(CK()(*x));}
std::size_t h_b(const BN* x){return HS()(*x);}
std::size_t h_s(const SN* x){return HS()(*x);}
/* operators of composite_key_result */
bool o_eq_kk(const S* x,const S* y){return CV()(*x)==CV()(*y);}
bool o_eq_kb(const S* x,const BV* y){return CV()(*x)==*y;}
bool o_eq_bk(const BV* x,const S* y){return *x==CV()(*y);}
bool o_eq_ks(const S* x,const SV* y){return CV()(*x)==*y;}
bool o_eq_sk(const SV* x,const S* y){return *x==CV()(*y);}
bool o_lt_kk(const S* x,const S* y){return CV()(*x)<CV()(*y);}
bool o_lt_kb(const S* x,const BV* y){return CV()(*x)<*y;}
bool o_lt_bk(const BV* x,const S* y){return *x<CV()(*y);}
bool o_lt_ks(const S* x,const SV* y){return CV()(*x)<*y;}
bool o_lt_sk(const SV* x,const S* y){return *x<CV()(*y);}
bool o_gt_kk(const S* x,const S* y){return CV()(*x)>CV()(*y);}
bool o_ge_kk(const S* x,const S* y){return CV()(*x)>=CV()(*y);}
bool o_le_kk(const S* x,const S* y){return CV()(*x)<=CV()(*y);}
bool o_ne_kk(const S* x,const S* y){return CV()(*x)!=CV()(*y);}
bool o_gt_kb(const S* x,const BV* y){return CV()(*x)>*y;}
bool o_le_ks(const S* x,const SV* y){return CV()(*x)<=*y;}
}
