// Streams whose writing fails at a chosen byte: every saving function must report it, or have delivered every byte.
#pragma once
#include "algo.h"
#include <functional>
struct Sink { std::string got; size_t fail; int mode; bool failed; };      // mode 0: fails for ever, 1: one write call fails and later ones succeed again
inline FILE *sink_open(Sink *d, size_t buf) { cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = [](void *c, const char *b, size_t k) -> ssize_t { Sink *d = (Sink *) c; size_t q = k; if (!(d->failed && d->mode == 1) && k > 0 && d->got.size() + k > d->fail) { q = d->fail - d->got.size(); d->failed = true; if (q == 0) { errno = ENOSPC; return 0; } } d->got.append(b, q); return (ssize_t) q; }; FILE *f = fopencookie(d, "w", io); setvbuf(f, NULL, buf ? _IOFBF : _IONBF, buf); return f; }
// save(f) writes something on f; whole is what it writes when nothing fails
inline void write_faults(const char *what, const std::function<void(FILE *)> &save)
{
	Sink w = {"", (size_t) -1, 0, false}; FILE *f = sink_open(&w, 4096); save(f); step(); fclose(f); std::string whole = w.got;
	for (size_t buf : {(size_t) 0, (size_t) 5, (size_t) 4096}) for (int mode = 0; mode < 2; mode++) for (size_t c = 0; c <= whole.size(); c++) {
		Sink d = {"", c, mode, false}; f = sink_open(&d, buf); Outcome o = guarded([&] { save(f); }); step(); mc_traces++; bool failed = d.failed; std::string got = d.got; d.fail = (size_t) -1; d.mode = 1; fclose(f);
		if (want_sample()) { describe_clear(); describe("%s to a stream that fails at byte %zu of %zu (buffer %zu, %s)", what, c, whole.size(), buf, mode ? "once" : "for ever"); }
		if (o.kind == Outcome::OK) { EXPECT(!failed, "%s: a write error at byte %zu of %zu went unnoticed (buffer %zu, %s)", what, c, whole.size(), buf, mode ? "once" : "for ever"); EXPECT(got == whole, "%s: %zu of %zu bytes written when the function returned successfully (buffer %zu)", what, got.size(), whole.size(), buf); outcome("everything written"); }
		else { EXPECT(o.reported(), "%s to a failing stream ended by %s (status %d): %s", what, o.name(), o.code, o.msg); EXPECT(failed, "%s: an error was reported although nothing failed: %s", what, o.msg); outcome("write error reported"); }
		state(hmix(hash_bytes(whole.data(), whole.size()), hmix(c, buf * 2 + mode)));
	}
}
