#include <stdlib.h>
#include <libsbp/edc.h>
#include "sbp_rt.h"
void sbp_state_init(sbp_state_t *s) { memset(s, 0, sizeof(*s)); }
void sbp_state_set_io_context(sbp_state_t *s, void *context) { s->io_context = context; }
static s8 add_node(sbp_state_t *s, sbp_msg_callbacks_node_t *n) {
  sbp_msg_callbacks_node_t **p = &s->sbp_msg_callbacks_head;
  while (*p) { if (*p == n) return SBP_CALLBACK_ERROR; p = &(*p)->next; }
  n->next = NULL;
  *p = n;
  return SBP_OK;
}
s8 sbp_register_callback(sbp_state_t *s, u16 t, sbp_msg_callback_t cb, void *ctx, sbp_msg_callbacks_node_t *n) {
  if (!cb || !n) return SBP_NULL_ERROR;
  n->msg_type = t; n->decoded = 0; n->cb = cb; n->dcb = NULL; n->context = ctx;
  return add_node(s, n);
}
s8 sbp_payload_callback_register(sbp_state_t *s, u16 t, sbp_msg_callback_t cb, void *ctx, sbp_msg_callbacks_node_t *n) {
  return sbp_register_callback(s, t, cb, ctx, n);
}
s8 sbp_callback_register(sbp_state_t *s, sbp_msg_type_t t, sbp_decoded_callback_t cb, void *ctx, sbp_msg_callbacks_node_t *n) {
  if (!cb || !n) return SBP_NULL_ERROR;
  n->msg_type = (u16)t; n->decoded = 1; n->cb = NULL; n->dcb = cb; n->context = ctx;
  return add_node(s, n);
}
void sbp_clear_callbacks(sbp_state_t *s) { s->sbp_msg_callbacks_head = NULL; }
s8 sbp_remove_callback(sbp_state_t *s, sbp_msg_callbacks_node_t *node) {
  for (sbp_msg_callbacks_node_t **p = &s->sbp_msg_callbacks_head; *p; p = &(*p)->next)
    if (*p == node) { *p = node->next; return SBP_OK; }
  return SBP_CALLBACK_ERROR;
}
static s8 dispatch(sbp_state_t *s, u16 type, u16 sender, u8 len, u8 *payload) {
  s8 ret = SBP_OK_CALLBACK_UNDEFINED;
  sbp_msg_t m;
  int dec = 0;
  for (sbp_msg_callbacks_node_t *n = s->sbp_msg_callbacks_head; n; n = n->next) {
    if (n->msg_type != type && n->msg_type != 0) continue;
    if (n->decoded) {
      if (!dec) {
        memset(&m, 0, sizeof m);
        if (sbp_message_decode(payload, len, NULL, (sbp_msg_type_t)type, &m) != SBP_OK) return SBP_DECODE_ERROR;
        dec = 1;
      }
      n->dcb(sender, (sbp_msg_type_t)type, &m, n->context);
    } else {
      n->cb(sender, len, payload, n->context);
    }
    ret = SBP_OK_CALLBACK_EXECUTED;
  }
  return ret;
}
s8 sbp_process(sbp_state_t *s, sbp_read_fn_t read) {
  u8 t;
  s32 rd;
  switch (s->state) {
    case 0:
      rd = read(&t, 1, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      if (rd == 1 && t == 0x55) { s->n_read = 0; s->state = 1; }
      break;
    case 1: /* type, sender, len */
      rd = read(s->frame_buff + s->n_read, 5u - s->n_read, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      s->n_read = (u8)(s->n_read + rd);
      if (s->n_read >= 5) {
        s->msg_type = (u16)(s->frame_buff[0] | s->frame_buff[1] << 8);
        s->sender_id = (u16)(s->frame_buff[2] | s->frame_buff[3] << 8);
        s->msg_len = s->frame_buff[4];
        s->n_read = 0; s->state = 2;
      }
      break;
    case 2: {
      u8 want = s->msg_len;
      if (s->n_read < want) {
        rd = read(s->frame_buff + 5 + s->n_read, (u32)(want - s->n_read), s->io_context);
        if (rd < 0) return SBP_READ_ERROR;
        s->n_read = (u8)(s->n_read + rd);
      }
      if (s->n_read >= want) { s->n_read = 0; s->state = 3; }
      break;
    }
    default: {
      u8 *cb = s->frame_buff + 5 + s->msg_len;
      rd = read(cb + s->n_read, 2u - s->n_read, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      s->n_read = (u8)(s->n_read + rd);
      if (s->n_read >= 2) {
        s->state = 0;
        u16 crc = crc16_ccitt(s->frame_buff, 5u + s->msg_len, 0);
        if (crc != (u16)(cb[0] | cb[1] << 8)) return SBP_CRC_ERROR;
        /* hand the payload over in an exactly sized heap block so that reads
         * past the received length are visible to the sanitizers */
        u8 *p = (u8 *)malloc(s->msg_len ? s->msg_len : 1);
        memcpy(p, s->frame_buff + 5, s->msg_len);
        s8 r = dispatch(s, s->msg_type, s->sender_id, s->msg_len, p);
        free(p);
        return r;
      }
      break;
    }
  }
  return SBP_OK;
}
s8 sbp_send_message(sbp_state_t *s, u16 type, u16 sender, u8 len, u8 *payload, sbp_write_fn_t write) {
  if (len != 0 && payload == NULL) return SBP_NULL_ERROR;
  if (write == NULL) return SBP_NULL_ERROR;
  u8 h[6] = {0x55, (u8)type, (u8)(type >> 8), (u8)sender, (u8)(sender >> 8), len};
  u16 crc = crc16_ccitt(h + 1, 5, 0);
  crc = crc16_ccitt(payload, len, crc);
  u8 c[2] = {(u8)crc, (u8)(crc >> 8)};
  if (write(h, 1, s->io_context) != 1) return SBP_SEND_ERROR;
  if (write(h + 1, 2, s->io_context) != 2) return SBP_SEND_ERROR;
  if (write(h + 3, 2, s->io_context) != 2) return SBP_SEND_ERROR;
  if (write(h + 5, 1, s->io_context) != 1) return SBP_SEND_ERROR;
  if (len > 0 && write(payload, len, s->io_context) != len) return SBP_SEND_ERROR;
  if (write(c, 2, s->io_context) != 2) return SBP_SEND_ERROR;
  return SBP_OK;
}
s8 sbp_payload_send(sbp_state_t *s, u16 t, u16 sender, u8 len, u8 *p, sbp_write_fn_t w) { return sbp_send_message(s, t, sender, len, p, w); }
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t t, u16 sender, const sbp_msg_t *msg, sbp_write_fn_t w) {
  u8 buf[SBP_MAX_PAYLOAD_LEN], n = 0;
  s8 r = sbp_message_encode(buf, sizeof buf, &n, t, msg);
  if (r != SBP_OK) return r;
  return sbp_send_message(s, (u16)t, sender, n, buf, w);
}
s8 sbp_message_process(sbp_state_t *s, u16 sender, sbp_msg_type_t t, const sbp_msg_t *m) {
  u8 buf[SBP_MAX_PAYLOAD_LEN], n = 0;
  s8 r = sbp_message_encode(buf, sizeof buf, &n, t, m);
  if (r != SBP_OK) return r;
  return dispatch(s, (u16)t, sender, n, buf);
}
void sbp_msg_log_text_init(sbp_msg_log_t *m) { memset(&m->text, 0, sizeof m->text); }
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *b, size_t len, bool trunc, size_t *nw) {
  if (len > SBP_MSG_LOG_TEXT_MAX) { if (!trunc) return false; len = SBP_MSG_LOG_TEXT_MAX; }
  memcpy(m->text.data, b, len);
  m->text.data[len] = 0;
  m->text.encoded_len = (u8)len;
  if (nw) *nw = len;
  return true;
}
bool sbp_msg_log_text_set(sbp_msg_log_t *m, const char *s, bool trunc, size_t *nw) { return sbp_msg_log_text_set_raw(m, s, strlen(s), trunc, nw); }
const char *sbp_msg_log_text_get(const sbp_msg_log_t *m) { return m->text.data; }
size_t sbp_msg_log_text_strlen(const sbp_msg_log_t *m) { return m->text.encoded_len; }
size_t sbp_msg_log_text_encoded_len(const sbp_msg_log_t *m) { return m->text.encoded_len; }
