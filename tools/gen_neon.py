o=[]
o.append('''// Stand-in for the compiler's NEON intrinsics: the ones the library uses, written out lane by lane from the Arm
// reference, so that the library's NEON code runs on any machine. Generated by tools/gen_neon.py.
#pragma once
#include <cstdint>
#include <cstring>
''')
T={'s8':('int8',1,'int8_t'),'s16':('int16',2,'int16_t'),'s32':('int32',4,'int32_t'),'s64':('int64',8,'int64_t'),'u8':('uint8',1,'uint8_t'),'u16':('uint16',2,'uint16_t'),'u32':('uint32',4,'uint32_t'),'u64':('uint64',8,'uint64_t'),'f32':('float32',4,'float'),'f64':('float64',8,'double')}
q={};d={}
for k,(n,b,e) in T.items():
    q[k]='%sx%d_t'%(n,16//b); d[k]='%sx%d_t'%(n,8//b)
    o.append('typedef %s %s __attribute__((vector_size(16)));'%(e,q[k]))
    o.append('typedef %s %s __attribute__((vector_size(8)));'%(e,d[k]))
for k in ('s8','u8'): o.append('typedef struct { %s val[2]; } %sx8x2_t;'%(d[k],T[k][0]))
o.append('#define NEON_EACH(n) for (int i = 0; i < int(n); ++i)')
def fn(ret,name,args,body): o.append('static inline %s %s(%s) { %s r; %s return r; }'%(ret,name,args,ret,body))
uns=lambda k:'u'+k[1:]
for k,(n,b,e) in T.items():
    N=16//b; V=q[k]; mask=q['u%d'%(8*b)]; mt=T['u%d'%(8*b)][2]
    if k=='f64': continue
    ut=e if k[0]=='f' else T[uns(k)][2]
    two='%s a, %s b'%(V,V)
    fn(V,'vdupq_n_'+k,e+' a','NEON_EACH(%d) r[i] = a;'%N)
    for op,c in (('add','+'),('sub','-'),('mul','*')):
        if op=='mul' and b==8: continue
        fn(V,'v%sq_%s'%(op,k),two,'NEON_EACH(%d) r[i] = %s(%s(a[i]) %s %s(b[i]));'%(N,e,ut,c,ut))
    if k[0]!='f':
        for op,c in (('and','a[i] & b[i]'),('orr','a[i] | b[i]'),('eor','a[i] ^ b[i]'),('bic','a[i] & ~b[i]')):
            fn(V,'v%sq_%s'%(op,k),two,'NEON_EACH(%d) r[i] = %s(%s);'%(N,e,c))
    for op,c in (('ceq','=='),('cgt','>'),('cle','<='),('clt','<'),('cge','>=')):
        if k[0]!='f' and b==8 : pass
        fn(mask,'v%sq_%s'%(op,k),two,'NEON_EACH(%d) r[i] = a[i] %s b[i] ? %s(-1) : %s(0);'%(N,c,mt,mt))
    fn(V,'vbslq_'+k,'%s m, %s a, %s b'%(mask,V,V),
       ('NEON_EACH(%d) r[i] = %s((m[i] & %s(a[i])) | (~m[i] & %s(b[i])));'%(N,e,ut,ut)) if k[0]!='f' else '%s x, y; memcpy(&x, &a, 16); memcpy(&y, &b, 16); NEON_EACH(%d) x[i] = (m[i] & x[i]) | (~m[i] & y[i]); memcpy(&r, &x, 16);'%(mask,N))
    if b<8:
        fn(V,'vmaxq_'+k,two,'NEON_EACH(%d) r[i] = a[i] > b[i] ? a[i] : b[i];'%N)
        fn(V,'vminq_'+k,two,'NEON_EACH(%d) r[i] = a[i] < b[i] ? a[i] : b[i];'%N)
    if k[0]=='f': fn(V,'vabsq_'+k,V+' a','NEON_EACH(%d) r[i] = __builtin_fabsf(a[i]);'%N); fn(V,'vnegq_'+k,V+' a','NEON_EACH(%d) r[i] = -a[i];'%N)
    if k[0]=='s' and b<8:
        fn(V,'vnegq_'+k,V+' a','NEON_EACH(%d) r[i] = %s(%s(0) - %s(a[i]));'%(N,e,ut,ut))
        fn(V,'vabsq_'+k,V+' a','NEON_EACH(%d) r[i] = a[i] < 0 ? %s(%s(0) - %s(a[i])) : a[i];'%(N,e,ut,ut))
        lo='(-(int64_t(1) << %d))'%(8*b-1); hi='((int64_t(1) << %d) - 1)'%(8*b-1)
    elif k[0]=='u' and b<8:
        lo='int64_t(0)'; hi='((int64_t(1) << %d) - 1)'%(8*b)
    if k[0]!='f' and b<8:
        for op,c in (('qadd','+'),('qsub','-')):
            fn(V,'v%sq_%s'%(op,k),two,'NEON_EACH(%d) { int64_t t = int64_t(a[i]) %s int64_t(b[i]); r[i] = %s(t < %s ? %s : t > %s ? %s : t); }'%(N,c,e,lo,lo,hi,hi))
        if k[0]=='s': fn(V,'vqabsq_'+k,V+' a','NEON_EACH(%d) { int64_t t = a[i] < 0 ? -int64_t(a[i]) : a[i]; r[i] = %s(t > %s ? %s : t); }'%(N,e,hi,hi))
    if k[0]!='f':
        fn(V,'vshlq_n_'+k,V+' a, int n','NEON_EACH(%d) r[i] = %s(%s(a[i]) << n);'%(N,e,ut))
        fn(V,'vshrq_n_'+k,V+' a, int n','NEON_EACH(%d) r[i] = %s(a[i] >> n);'%(N,e))
    o.append('static inline %s vld1q_%s(const %s *p) { %s r; memcpy(&r, p, 16); return r; }'%(V,k,e,V))
    o.append('static inline void vst1q_%s(%s *p, %s a) { memcpy(p, &a, 16); }'%(k,e,V))
    D=d[k]
    fn(D,'vget_low_'+k,V+' a','memcpy(&r, &a, 8);'); fn(D,'vget_high_'+k,V+' a','memcpy(&r, (const char *)&a + 8, 8);')
    fn(V,'vcombine_'+k,'%s a, %s b'%(D,D),'memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8);')
for k in ('s8','u8'):
    e=T[k][2]
    fn(d[k],'vtbl2_'+k,'%sx8x2_t t, %s x'%(T[k][0],d[k]),'NEON_EACH(8) { uint8_t j = uint8_t(x[i]); r[i] = j < 8 ? t.val[0][j] : j < 16 ? t.val[1][j - 8] : %s(0); }'%e)
    o.append('#ifdef __aarch64__')
    fn(q[k],'vqtbl1q_'+k,'%s t, uint8x16_t x'%q[k],'NEON_EACH(16) r[i] = x[i] < 16 ? t[x[i]] : %s(0);'%e)
    o.append('#endif')
o.append('#undef NEON_EACH')
open('/verif/sim/neon/arm_neon.h','w').write('\n'.join(o)+'\n')
