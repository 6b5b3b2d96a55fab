/* Stand-in for libsbp's runtime (framing, dispatch). */
#ifndef SHIM_SBP_H
#define SHIM_SBP_H
#include <libsbp/common.h>
#include <libsbp/sbp_msg_type.h>
#include <libsbp/v4/all_.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SBP_OK 0
#define SBP_OK_CALLBACK_EXECUTED 1
#define SBP_OK_CALLBACK_UNDEFINED 2
#define SBP_CALLBACK_ERROR -1
#define SBP_CRC_ERROR -2
#define SBP_SEND_ERROR -3
#define SBP_NULL_ERROR -4
#define SBP_WRITE_ERROR -5
#define SBP_READ_ERROR -6
#define SBP_DECODE_ERROR -7
#define SBP_ENCODE_ERROR -8
#define SBP_SENDER_ID 0x42
typedef s32 (*sbp_read_fn_t)(u8 *buff, u32 n, void *context);
typedef s32 (*sbp_write_fn_t)(u8 *buff, u32 n, void *context);
typedef void (*sbp_msg_callback_t)(u16 sender_id, u8 len, u8 msg[], void *context);
typedef void (*sbp_decoded_callback_t)(u16 sender_id, sbp_msg_type_t msg_type, const sbp_msg_t *msg, void *context);
typedef struct sbp_msg_callbacks_node {
  u16 msg_type;
  int decoded;
  sbp_msg_callback_t cb;
  sbp_decoded_callback_t dcb;
  void *context;
  struct sbp_msg_callbacks_node *next;
} sbp_msg_callbacks_node_t;
typedef struct {
  int state;
  u16 msg_type, sender_id, crc;
  u8 msg_len;
  u8 n_read;
  u8 frame_buff[SBP_MAX_FRAME_LEN];
  void *io_context;
  sbp_msg_callbacks_node_t *sbp_msg_callbacks_head;
} sbp_state_t;
void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *context);
s8 sbp_process(sbp_state_t *s, sbp_read_fn_t read);
s8 sbp_register_callback(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_payload_callback_register(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_callback_register(sbp_state_t *s, sbp_msg_type_t msg_type, sbp_decoded_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_remove_callback(sbp_state_t *s, sbp_msg_callbacks_node_t *node);
void sbp_clear_callbacks(sbp_state_t *s);
s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write);
s8 sbp_payload_send(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write);
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t msg_type, u16 sender_id, const sbp_msg_t *msg, sbp_write_fn_t write);
s8 sbp_message_process(sbp_state_t *s, u16 sender_id, sbp_msg_type_t msg_type, const sbp_msg_t *msg);
const char *shim_sbp_name(u16 msg_type);
#ifdef __cplusplus
}
#endif
#endif
