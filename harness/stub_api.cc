// ce_read_pcm_header() lives in ce_stt.cc, which needs the whole engine; harnesses that only link the
// PCM reader get it from here unless the real one is linked.
#include "ce_stt.h"
extern "C" {
__attribute__((weak)) ce_wave_format_t *ce_read_pcm_header(FILE *, ce_wave_format_t *) { return nullptr; }
__attribute__((weak)) const char *ce_stt_last_error() { return ""; }
}
