#pragma once
#include <cstdint>
namespace vrt {
enum { REC_CAP = 1u << 18, NOTE_CAP = 1u << 19, MAXLABEL = 96 };
struct Shared {
    // written by the child
    volatile uint32_t cur_case;            // absolute case index being executed
    volatile uint32_t done_cases;          // cases completed
    volatile uint32_t failed;
    char fail_cls[64];
    char fail_msg[8192];
    uint32_t nrec[4];
    uint32_t rec[4][REC_CAP];
    uint32_t note_len;
    char notes[NOTE_CAP];
    uint32_t nlabels;
    char label_name[MAXLABEL][48];
    uint64_t label_count[MAXLABEL];
    uint64_t tot_steps, tot_switches, tot_preempt, tot_blocks, tot_vthreads;
    uint64_t max_steps;
    uint32_t nhash;
    uint64_t hashes[1u << 16];             // low bit: non-trivial
    uint64_t known_hits;
};
}
