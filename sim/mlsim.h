// The simulated front end at the other end of the Mathematica link.
#pragma once
#include "stub/mathlink.h"
#include <string>
#include <vector>

struct MLTok { char t; std::string s; double d; int n; }; // F head argc | R real | I int | S string | Y symbol | E end of request

enum MLBadKind { LB_NONE, LB_OUTER_HEAD, LB_OUTER_COUNT, LB_INNER_HEAD, LB_SHORT, LB_LONG, LB_SYMBOL, LB_STRING, LB_FUNCTION, LB_INTEGERS,
                 LB_EMPTY, LB_INNER_ATOM, LB_OUTER_ATOM, LB_TRUNC, LB_N };

MLSimLink* ml_link();                                    // the one link of the process
void ml_reset();
void ml_request(const double* v, int n, int kind, int pos); // the front end sends a request
void ml_set_variant(int strict_head, int chatter, int dead_on_fault);
struct MLReply {
   int nexpr = 0;                 // complete top-level expressions received
   bool incomplete = false;       // an unfinished expression remains
   bool malformed = false;
   std::vector<std::string> msgs; // "I:text" or "E:text"
   std::string value;             // innermost value, canonical text
   int left = 0;                  // unread tokens of the request
   int err = 0;                   // error state of the link
   bool dead = false;
};
MLReply ml_finish(int rc);        // the front end reads the reply, the host takes the link back
std::string ml_canon_real(double);
int ml_ops();
std::string ml_chatter();         // what was printed by the front end while it served the link
