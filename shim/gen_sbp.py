#!/usr/bin/env python3
"""Generate a stand-in for the subset of libsbp (v4 + legacy C API) that
gnss-converters uses.  The real library is an empty git submodule here.
usage: gen_sbp.py OUTDIR   -> OUTDIR/libsbp/*.h, OUTDIR/sbp_gen.c
"""
import os, sys

# struct specs: field = (type, name) ; array: (type, name, N) ; counted: (type, name, N, 'counted') ; ('string', name, N)
STRUCTS = [
 ('gps_time_sec', [('u32','tow'),('u16','wn')]),
 ('v4_gps_time', [('u32','tow'),('s32','ns_residual'),('u16','wn')]),
 ('v4_gnss_signal', [('u8','sat'),('u8','code')]),
 ('carrier_phase', [('s32','i'),('u8','f')]),
 ('doppler', [('s16','i'),('u8','f')]),
 ('observation_header', [('v4_gps_time','t'),('u8','n_obs')]),
 ('packed_obs_content', [('u32','P'),('carrier_phase','L'),('doppler','D'),('u8','cn0'),('u8','lock'),('u8','flags'),('v4_gnss_signal','sid')]),
 ('ephemeris_common_content', [('v4_gnss_signal','sid'),('gps_time_sec','toe'),('float','ura'),('u32','fit_interval'),('u8','valid'),('u8','health_bits')]),
 ('code_biases_content', [('u8','code'),('s16','value')]),
 ('phase_biases_content', [('u8','code'),('u8','integer_indicator'),('u8','widelane_integer_indicator'),('u8','discontinuity_counter'),('s32','bias')]),
 ('measurement_state', [('v4_gnss_signal','mesid'),('u8','cn0')]),
 ('sv_az_el', [('v4_gnss_signal','sid'),('u8','az'),('s8','el')]),
 ('solution_input_type', [('u8','sensor_type'),('u8','flags')]),
]
KEP = [(t,n) for n in ('c_rs','c_rc','c_uc','c_us','c_ic','c_is') for t in ('float',)] + \
      [('double',n) for n in ('dn','m0','ecc','sqrta','omega0','omegadot','w','inc','inc_dot')]
GPSLIKE = [('ephemeris_common_content','common'),('float','tgd')]+KEP+[('float','af0'),('float','af1'),('float','af2'),('gps_time_sec','toc'),('u8','iode'),('u16','iodc')]
MSGS = [
 # (group, name, id, fields)
 ('observation','obs',0x004A,[('observation_header','header'),('packed_obs_content','obs',14,'counted')]),
 ('observation','osr',0x0640,[('observation_header','header'),('packed_obs_content','obs',12,'counted')]),
 ('observation','base_pos_llh',0x0044,[('double','lat'),('double','lon'),('double','height')]),
 ('observation','base_pos_ecef',0x0048,[('double','x'),('double','y'),('double','z')]),
 ('observation','glo_biases',0x0075,[('u8','mask'),('s16','l1ca_bias'),('s16','l1p_bias'),('s16','l2ca_bias'),('s16','l2p_bias')]),
 ('observation','ephemeris_gps',0x008A,GPSLIKE),
 ('observation','ephemeris_qzss',0x008E,GPSLIKE),
 ('observation','ephemeris_bds',0x0089,[('ephemeris_common_content','common'),('float','tgd1'),('float','tgd2')]+KEP+[('double','af0'),('float','af1'),('float','af2'),('gps_time_sec','toc'),('u8','iode'),('u16','iodc')]),
 ('observation','ephemeris_gal',0x008D,[('ephemeris_common_content','common'),('float','bgd_e1e5a'),('float','bgd_e1e5b')]+KEP+[('double','af0'),('double','af1'),('float','af2'),('gps_time_sec','toc'),('u16','iode'),('u16','iodc'),('u8','source')]),
 ('observation','ephemeris_glo',0x008B,[('ephemeris_common_content','common'),('float','gamma'),('float','tau'),('float','d_tau'),('double','pos',3),('double','vel',3),('float','acc',3),('u8','fcn'),('u8','iod')]),
 ('observation','sv_az_el',0x0097,[('sv_az_el','azel',63,'counted')]),
 ('tracking','measurement_state',0x0061,[('measurement_state','states',85,'counted')]),
 ('ssr','ssr_orbit_clock',0x05DD,[('gps_time_sec','time'),('v4_gnss_signal','sid'),('u8','update_interval'),('u8','iod_ssr'),('u32','iod')]+[('s32',n) for n in ('radial','along','cross','dot_radial','dot_along','dot_cross','c0','c1','c2')]),
 ('ssr','ssr_code_biases',0x05E1,[('gps_time_sec','time'),('v4_gnss_signal','sid'),('u8','update_interval'),('u8','iod_ssr'),('code_biases_content','biases',81,'counted')]),
 ('ssr','ssr_phase_biases',0x05E6,[('gps_time_sec','time'),('v4_gnss_signal','sid'),('u8','update_interval'),('u8','iod_ssr'),('u8','dispersive_bias'),('u8','mw_consistency'),('u16','yaw'),('s8','yaw_rate'),('phase_biases_content','biases',30,'counted')]),
 ('ssr','ssr_stec_correction_dep_a',0x05EB,[('u8','data',255,'counted')]),
 ('ssr','ssr_gridded_correction_dep_a',0x05F0,[('u8','data',255,'counted')]),
 ('ssr','ssr_grid_definition_dep_a',0x05F5,[('u8','data',255,'counted')]),
 ('logging','log',0x0401,[('u8','level'),('string','text',254)]),
 ('logging','fwd',0x0402,[('u8','source'),('u8','protocol'),('u8','fwd_payload',253,'counted')]),
 ('navigation','gps_time',0x0102,[('u16','wn'),('u32','tow'),('s32','ns_residual'),('u8','flags')]),
 ('navigation','gps_time_gnss',0x0104,[('u16','wn'),('u32','tow'),('s32','ns_residual'),('u8','flags')]),
 ('navigation','utc_time',0x0103,[('u8','flags'),('u32','tow'),('u16','year'),('u8','month'),('u8','day'),('u8','hours'),('u8','minutes'),('u8','seconds'),('u32','ns')]),
 ('navigation','utc_time_gnss',0x0105,[('u8','flags'),('u32','tow'),('u16','year'),('u8','month'),('u8','day'),('u8','hours'),('u8','minutes'),('u8','seconds'),('u32','ns')]),
 ('navigation','dops',0x0208,[('u32','tow')]+[('u16',n) for n in ('gdop','pdop','tdop','hdop','vdop')]+[('u8','flags')]),
 ('navigation','pos_ecef',0x0209,[('u32','tow'),('double','x'),('double','y'),('double','z'),('u16','accuracy'),('u8','n_sats'),('u8','flags')]),
 ('navigation','pos_llh',0x020A,[('u32','tow'),('double','lat'),('double','lon'),('double','height'),('u16','h_accuracy'),('u16','v_accuracy'),('u8','n_sats'),('u8','flags')]),
 ('navigation','pos_llh_cov',0x0211,[('u32','tow'),('double','lat'),('double','lon'),('double','height')]+[('float',n) for n in ('cov_n_n','cov_n_e','cov_n_d','cov_e_e','cov_e_d','cov_d_d')]+[('u8','n_sats'),('u8','flags')]),
 ('navigation','pos_llh_cov_gnss',0x0231,[('u32','tow'),('double','lat'),('double','lon'),('double','height')]+[('float',n) for n in ('cov_n_n','cov_n_e','cov_n_d','cov_e_e','cov_e_d','cov_d_d')]+[('u8','n_sats'),('u8','flags')]),
 ('navigation','vel_ned',0x020E,[('u32','tow'),('s32','n'),('s32','e'),('s32','d'),('u16','h_accuracy'),('u16','v_accuracy'),('u8','n_sats'),('u8','flags')]),
 ('navigation','vel_ned_gnss',0x022E,[('u32','tow'),('s32','n'),('s32','e'),('s32','d'),('u16','h_accuracy'),('u16','v_accuracy'),('u8','n_sats'),('u8','flags')]),
 ('navigation','vel_ecef',0x020D,[('u32','tow'),('s32','x'),('s32','y'),('s32','z'),('u16','accuracy'),('u8','n_sats'),('u8','flags')]),
 ('orientation','baseline_heading',0x020F,[('u32','tow'),('u32','heading'),('u8','n_sats'),('u8','flags')]),
 ('navigation','age_corrections',0x0210,[('u32','tow'),('u16','age')]),
 ('orientation','orient_euler',0x0221,[('u32','tow'),('s32','roll'),('s32','pitch'),('s32','yaw'),('float','roll_accuracy'),('float','pitch_accuracy'),('float','yaw_accuracy'),('u8','flags')]),
 ('orientation','angular_rate',0x0222,[('u32','tow'),('s32','x'),('s32','y'),('s32','z'),('u8','flags')]),
 ('imu','imu_raw',0x0900,[('u32','tow'),('u8','tow_f')]+[('s16',n) for n in ('acc_x','acc_y','acc_z','gyr_x','gyr_y','gyr_z')]),
 ('imu','imu_aux',0x0901,[('u8','imu_type'),('s16','temp'),('u8','imu_conf')]),
 ('vehicle','odometry',0x0903,[('u32','tow'),('s32','velocity'),('u8','flags')]),
 ('vehicle','wheeltick',0x0904,[('u64','time'),('u8','flags'),('u8','source'),('s32','ticks')]),
 ('sbas','sbas_raw',0x7777,[('v4_gnss_signal','sid'),('u32','tow'),('u8','message_type'),('u8','data',27)]),
 ('system','gnss_time_offset',0xFF07,[('s16','weeks'),('s32','milliseconds'),('s16','microseconds'),('u8','flags')]),
 ('system','group_meta',0xFF0A,[('u8','group_id'),('u8','flags'),('u8','n_group_msgs','wirecount'),('u16','group_msgs',126,'counted')]),
 ('system','heartbeat',0xFFFF,[('u32','flags')]),
 ('solution_meta','soln_meta',0xFF0E,[('u32','tow'),('u16','pdop'),('u16','hdop'),('u16','vdop'),('u16','age_corrections'),('u32','age_gnss'),('solution_input_type','sol_in',118,'counted')]),
]
LEG_SUB = {'v4_gps_time':'sbp_gps_time_t','v4_gnss_signal':'sbp_gnss_signal_t'}
PRIM = {'u8':1,'s8':1,'u16':2,'s16':2,'u32':4,'s32':4,'u64':8,'s64':8,'float':4,'double':8}
SUB = dict(STRUCTS)

def camel(n): return ''.join(p.capitalize() for p in n.split('_'))
def wsize(t):
    if t in PRIM: return PRIM[t]
    return sum(wsize(f[0])*(f[2] if len(f)==3 and isinstance(f[2],int) else 1) for f in SUB[t])
def ct(t): return t if t in PRIM else f'sbp_{t}_t'
def lt(t): return t if t in PRIM else LEG_SUB.get(t, f'{t}_t')

def v4_struct(name, fields, pfx=''):
    o = ['typedef struct {']
    for f in fields:
        if f[0]=='string': o.append(f'  sbp_string_t {f[1]};')
        elif len(f)==3 and f[2]=='wirecount': continue
        elif len(f)==2: o.append(f'  {ct(f[0])} {f[1]};')
        elif len(f)==3: o.append(f'  {ct(f[0])} {f[1]}[{f[2]}];')
        else:
            o.append(f'  {ct(f[0])} {f[1]}[{f[2]}];')
            o.append(f'  u8 n_{f[1]};')
    o.append(f'}} sbp_{pfx}{name}_t;')
    return '\n'.join(o)

def leg_struct(tn, fields):
    o = ['typedef struct __attribute__((packed)) {']
    for f in fields:
        if f[0]=='string': o.append(f'  char {f[1]}[0];')
        elif len(f)==3 and f[2]=='wirecount': o.append(f'  {f[0]} {f[1]};')
        elif len(f)==2: o.append(f'  {lt(f[0])} {f[1]};')
        elif len(f)==3: o.append(f'  {lt(f[0])} {f[1]}[{f[2]}];')
        else: o.append(f'  {lt(f[0])} {f[1]}[0];')
    o.append(f'}} {tn};')
    return '\n'.join(o)

def main(out):
    os.makedirs(out+'/libsbp/v4', exist_ok=True); os.makedirs(out+'/libsbp/legacy', exist_ok=True)
    def w(p, s):
        open(out+'/'+p,'w').write(s)
    w('libsbp/common.h','''#ifndef SHIM_SBP_COMMON_H
#define SHIM_SBP_COMMON_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <inttypes.h>
#ifndef COMMON_INT_TYPES
#define COMMON_INT_TYPES
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#endif
#define SBP_MAX_PAYLOAD_LEN 255
#define SBP_PAYLOAD_OFFSET 6
#define SBP_FRAMING_SIZE_BYTES 8
#define SBP_MAX_FRAME_LEN (SBP_MAX_PAYLOAD_LEN + SBP_FRAMING_SIZE_BYTES)
typedef struct { char data[SBP_MAX_PAYLOAD_LEN]; u8 encoded_len; } sbp_string_t;
#endif
''')
    allv4 = ['#ifndef SHIM_SBP_V4_ALL_H','#define SHIM_SBP_V4_ALL_H','#include <libsbp/common.h>','#include <libsbp/sbp_msg_type.h>',
             '#ifdef __cplusplus','extern "C" {','#endif']
    for n,f in STRUCTS: allv4.append(v4_struct(n,f))
    for g,n,i,f in MSGS:
        allv4.append(v4_struct(n,f,'msg_'))
        for x in f:
            if len(x)==4: allv4.append(f'#define SBP_MSG_{n.upper()}_{x[1].upper()}_MAX {x[2]}u')
            if x[0]=='string': allv4.append(f'#define SBP_MSG_{n.upper()}_{x[1].upper()}_MAX {x[2]}u')
    allv4.append('typedef union {')
    for g,n,i,f in MSGS: allv4.append(f'  sbp_msg_{n}_t {n};')
    allv4.append('  u8 unsupported_[1];\n} sbp_msg_t;')
    allv4.append('''
void sbp_msg_log_text_init(sbp_msg_log_t *msg);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *buf, size_t len, bool should_trunc, size_t *n_written);
bool sbp_msg_log_text_set(sbp_msg_log_t *msg, const char *str, bool should_trunc, size_t *n_written);
const char *sbp_msg_log_text_get(const sbp_msg_log_t *msg);
size_t sbp_msg_log_text_strlen(const sbp_msg_log_t *msg);
size_t sbp_msg_log_text_encoded_len(const sbp_msg_log_t *msg);
s8 sbp_message_encode(u8 *buf, u8 len, u8 *n_written, sbp_msg_type_t type, const sbp_msg_t *msg);
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t type, sbp_msg_t *msg);
int sbp_message_cmp(sbp_msg_type_t type, const sbp_msg_t *a, const sbp_msg_t *b);
''')
    for g,n,i,f in MSGS:
        allv4.append(f's8 sbp_msg_{n}_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_{n}_t *msg);')
        allv4.append(f's8 sbp_msg_{n}_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_{n}_t *msg);')
    allv4 += ['#ifdef __cplusplus','}','#endif','#endif','']
    w('libsbp/v4/all_.h','\n'.join(allv4))
    types = ['#ifndef SHIM_SBP_MSG_TYPE_H','#define SHIM_SBP_MSG_TYPE_H']
    for g,n,i,f in MSGS: types.append(f'#define SBP_MSG_{n.upper()} 0x{i:04X}')
    types.append('typedef enum {')
    for g,n,i,f in MSGS: types.append(f'  SbpMsg{camel(n)} = SBP_MSG_{n.upper()},')
    types.append('  SbpMsgAll = 0,\n} sbp_msg_type_t;')
    types.append('#include <libsbp/macros_.h>\n#endif\n')
    w('libsbp/sbp_msg_type.h','\n'.join(types))
    for g in sorted({m[0] for m in MSGS}|{'gnss','sbp_msg','ext_events','settings','piksi','mag'}):
        w(f'libsbp/v4/{g}.h','#include <libsbp/v4/all_.h>\n')
        w(f'libsbp/legacy/{g}.h','#include <libsbp/legacy/all_.h>\n')
        w(f'libsbp/{g}.h','#include <libsbp/legacy/all_.h>\n')
    leg = ['#ifndef SHIM_SBP_LEGACY_ALL_H','#define SHIM_SBP_LEGACY_ALL_H','#include <libsbp/common.h>','#include <libsbp/sbp_msg_type.h>']
    for n,f in STRUCTS: leg.append(leg_struct(LEG_SUB.get(n,f'{n}_t'),f))
    for g,n,i,f in MSGS: leg.append(leg_struct(f'msg_{n}_t',f))
    leg.append('#endif\n')
    w('libsbp/legacy/all_.h','\n'.join(leg))
    # ---- codec C
    c = ['/* generated */','#include <libsbp/v4/all_.h>','#include "sbp_rt.h"','']
    def enc(t, expr): return f'w_{t}(c, {expr})' if t in PRIM else f'enc_{t}(c, &{expr})'
    def dec(t, expr): return f'r_{t}(c, &{expr})' if t in PRIM else f'dec_{t}(c, &{expr})'
    def body(fields, isenc):
        fn = enc if isenc else dec
        o=[]
        for f in fields:
            if f[0]=='string':
                if isenc: o.append(f'  if (!w_raw(c, m->{f[1]}.data, m->{f[1]}.encoded_len)) return false;')
                else: o.append(f'  {{ size_t k = c->len - c->off; m->{f[1]}.encoded_len = (u8)k; if (!r_raw(c, m->{f[1]}.data, k)) return false; if (k < sizeof(m->{f[1]}.data)) m->{f[1]}.data[k] = 0; }}')
            elif len(f)==3 and f[2]=='wirecount':
                if isenc: o.append(f'  if (!w_u8(c, m->{f[1]})) return false;')
                else: o.append(f'  if (!r_u8(c, &m->{f[1]})) return false;')
            elif len(f)==2: o.append(f'  if (!{fn(f[0],"m->"+f[1])}) return false;')
            elif len(f)==3: o.append(f'  for (size_t i = 0; i < {f[2]}u; i++) if (!{fn(f[0],"m->"+f[1]+"[i]")}) return false;')
            else:
                if isenc:
                    o.append(f'  for (size_t i = 0; i < m->n_{f[1]}; i++) if (!{fn(f[0],"m->"+f[1]+"[i]")}) return false;')
                else:
                    o.append(f'  m->n_{f[1]} = (u8)((c->len - c->off) / {wsize(f[0])}u);')
                    o.append(f'  for (size_t i = 0; i < m->n_{f[1]}; i++) if (!{fn(f[0],"m->"+f[1]+"[i]")}) return false;')
        return '\n'.join(o)
    for n,f in STRUCTS:
        c.append(f'static bool enc_{n}(cur_t *c, const sbp_{n}_t *m) {{\n{body(f,True)}\n  return true;\n}}')
        c.append(f'static bool dec_{n}(cur_t *c, sbp_{n}_t *m) {{\n{body(f,False)}\n  return true;\n}}')
    for g,n,i,f in MSGS:
        c.append(f'static bool menc_{n}(cur_t *c, const sbp_msg_{n}_t *m) {{\n  (void)c; (void)m;\n{body(f,True)}\n  return true;\n}}')
        c.append(f'static bool mdec_{n}(cur_t *c, sbp_msg_{n}_t *m) {{\n  (void)c; (void)m;\n{body(f,False)}\n  return true;\n}}')
        c.append(f's8 sbp_msg_{n}_encode(u8 *buf, u8 len, u8 *nw, const sbp_msg_{n}_t *m) {{ cur_t c = {{buf, len, 0}}; if (!menc_{n}(&c, m)) return SBP_ENCODE_ERROR; if (nw) *nw = (u8)c.off; return SBP_OK; }}')
        c.append(f's8 sbp_msg_{n}_decode(const u8 *buf, u8 len, u8 *nr, sbp_msg_{n}_t *m) {{ cur_t c = {{(u8 *)(uintptr_t)buf, len, 0}}; if (!mdec_{n}(&c, m)) return SBP_DECODE_ERROR; if (nr) *nr = (u8)c.off; return SBP_OK; }}')
    c.append('s8 sbp_message_encode(u8 *buf, u8 len, u8 *nw, sbp_msg_type_t t, const sbp_msg_t *m) {\n  switch ((int)t) {')
    for g,n,i,f in MSGS: c.append(f'    case SBP_MSG_{n.upper()}: return sbp_msg_{n}_encode(buf, len, nw, &m->{n});')
    c.append('  }\n  return SBP_ENCODE_ERROR;\n}')
    c.append('s8 sbp_message_decode(const u8 *buf, u8 len, u8 *nr, sbp_msg_type_t t, sbp_msg_t *m) {\n  switch ((int)t) {')
    for g,n,i,f in MSGS: c.append(f'    case SBP_MSG_{n.upper()}: return sbp_msg_{n}_decode(buf, len, nr, &m->{n});')
    c.append('  }\n  return SBP_DECODE_ERROR;\n}')
    c.append('const char *shim_sbp_name(u16 t) {\n  switch (t) {')
    for g,n,i,f in MSGS: c.append(f'    case SBP_MSG_{n.upper()}: return "{n}";')
    c.append('  }\n  return "?";\n}')
    # textual dump of decoded message, for oracles in Python/C++
    w('sbp_gen.c','\n'.join(c)+'\n')

main(sys.argv[1])
