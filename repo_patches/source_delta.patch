From d7f0e08f67d918a1b73e2347a817f466c95f804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 01/79] fix: let the first activated layer take precedence over
 the layout

---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..0ad7390 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -15,7 +15,7 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 static long get_time()
 {
 	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	static long time = 2; /* 0 and 1 correspond to main and the active layout. */
 	return time++;
 }
 
-- 
2.43.0


From a4e8348d13542832ac4e5b1b2ca2e1da99f838c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 02/79] fix: release the modifiers of macros played by clearm()
 and overload()

---
 src/keyboard.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 0ad7390..5e1b37e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -612,6 +612,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			clear(kbd);
 			macro = &kbd->config.macros[d->args[0].idx];
 			execute_macro(kbd, dl, macro);
+			update_mods(kbd, dl, 0);
 		}
 		break;
 	case OP_CLEAR:
@@ -640,6 +641,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					 */
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
+					update_mods(kbd, dl, 0);
 				} else {
 					process_descriptor(kbd, code, action, dl, 1, time);
 					process_descriptor(kbd, code, action, dl, 0, time);
-- 
2.43.0


From 376327cef1c023244ecada578da3e05709997b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 03/79] fix: release modifiers of a oneshot layer which is
 consumed by a toggle

---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 5e1b37e..5632edc 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -710,8 +710,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				deactivate_layer(kbd, idx);
 
-			update_mods(kbd, -1, 0);
 			clear_oneshot(kbd);
+			update_mods(kbd, -1, 0);
 		}
 
 		break;
-- 
2.43.0


From 104ab509c604a511dd8277d85602b86b50e47653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 04/79] fix: do not activate a layer twice when swapping to one
 which is already toggled

---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 5632edc..768d794 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -749,7 +749,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
-				activate_layer(kbd, 0, idx);
+				if (!kbd->layer_state[idx].toggled)
+					activate_layer(kbd, 0, idx);
 				kbd->layer_state[idx].toggled = 1;
 				update_mods(kbd, -1, 0);
 			} else if (kbd->layer_state[dl].oneshot_depth) {
-- 
2.43.0


From 515a3e783278f85c83d9a2e13ac90cc897a67ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 05/79] fix: process the release of timed actions used as the
 tap action of overload()

---
 src/keyboard.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 768d794..a406108 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -643,8 +643,13 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					execute_macro(kbd, dl, macro);
 					update_mods(kbd, dl, 0);
 				} else {
+					/*
+					 * The action may not take effect until later (e.g timeout()),
+					 * treat the release like that of any other key.
+					 */
+					cache_set(kbd, code, &(struct cache_entry) { .d = *action, .dl = dl, .layer = 0 });
 					process_descriptor(kbd, code, action, dl, 1, time);
-					process_descriptor(kbd, code, action, dl, 0, time);
+					process_event(kbd, code, 0, time);
 				}
 			}
 		}
-- 
2.43.0


From dedb058ce111f9ab04dad108893bed7e8e36de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 06/79] fix: disable macro repetition if the timeout or the
 repeat interval is 0

---
 src/keyboard.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index a406108..875ccc4 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -698,8 +698,12 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->active_macro = macro;
 			kbd->active_macro_layer = dl;
 
-			kbd->macro_timeout = time + timeout;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			if (timeout > 0 && kbd->macro_repeat_interval > 0) {
+				kbd->macro_timeout = time + timeout;
+				schedule_timeout(kbd, kbd->macro_timeout);
+			} else {
+				kbd->macro_timeout = 0;
+			}
 		}
 
 		break;
@@ -1147,7 +1151,7 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 		if (code) {
 			kbd->active_macro = NULL;
 			update_mods(kbd, -1, 0);
-		} else if (time >= kbd->macro_timeout) {
+		} else if (kbd->macro_timeout && time >= kbd->macro_timeout) {
 			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);
 			kbd->macro_timeout = time+kbd->macro_repeat_interval;
 			schedule_timeout(kbd, kbd->macro_timeout);
-- 
2.43.0


From 53d18e000a9712703e71bf88f1c5f84c06767271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 07/79] fix: only release held keys at the end of a macro group

---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..ad6f129 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From 803ed8212a39ecd1dcac2fb70da345c10e9bd564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 08/79] fix: do not abort if a key is tapped while 255 oneshot
 taps are pending

---
 src/keyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..13f3870 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -117,9 +117,9 @@ struct keyboard {
 	struct {
 		long activation_time;
 
-		uint8_t active;
+		uint32_t active;
 		uint8_t toggled;
-		uint8_t oneshot_depth;
+		uint32_t oneshot_depth;
 	} layer_state[MAX_LAYERS];
 
 	uint8_t keystate[256];
-- 
2.43.0


From a48ed454d4bdc62c4ddd0e7afabfe55268e33abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 09/79] fix: count every key of a chord once

---
 src/keyboard.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 875ccc4..57dbc99 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -294,7 +294,13 @@ static int chord_event_match(struct chord *chord, struct key_event *events, size
 
 			if (!found)
 				return 0;
-			else
+
+			/* Ignore repeated presses of the same key. */
+			for (j = 0; j < i; j++)
+				if (events[j].pressed && events[j].code == events[i].code)
+					break;
+
+			if (j == i)
 				n++;
 		}
 
@@ -879,7 +885,11 @@ static int resolve_chord(struct keyboard *kbd)
 
 		assert(code);
 
-		queue_offset = chord->sz;
+		while (queue_offset < kbd->chord.queue_sz &&
+		       chord_event_match(&kbd->active_chords[i].chord,
+					 kbd->chord.queue + queue_offset, 1))
+			queue_offset++;
+
 		process_event(kbd, code, 1, kbd->chord.last_code_time);
 	}
 
-- 
2.43.0


From e9b67de538cd692142ae52fd510c9efdc5dc5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 10/79] fix: ignore repeated presses of the keys of an active
 chord

---
 src/keyboard.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 57dbc99..97466cc 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -914,7 +914,7 @@ static int handle_chord(struct keyboard *kbd,
 	const long interkey_timeout = kbd->config.chord_interkey_timeout;
 	const long hold_timeout = kbd->config.chord_hold_timeout;
 
-	if (code && !pressed) {
+	if (code) {
 		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {
 			struct active_chord *ac = &kbd->active_chords[i];
 			uint8_t chord_code = KEYD_CHORD_1 + i;
@@ -926,6 +926,9 @@ static int handle_chord(struct keyboard *kbd,
 
 				for (i = 0; i < ac->chord.sz; i++) {
 					if (ac->chord.keys[i] == code) {
+						if (pressed)
+							return 1;
+
 						ac->chord.keys[i] = 0;
 						found = 1;
 					}
-- 
2.43.0


From b29d271ef26c062467d0995657ddc0542eb590d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 11/79] fix: act on the individual keys if no more chords can
 be active

---
 src/keyboard.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 97466cc..e952d85 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -883,17 +883,16 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		while (queue_offset < kbd->chord.queue_sz &&
-		       chord_event_match(&kbd->active_chords[i].chord,
-					 kbd->chord.queue + queue_offset, 1))
-			queue_offset++;
+		if (code) {
+			while (queue_offset < kbd->chord.queue_sz &&
+			       chord_event_match(&kbd->active_chords[i].chord,
+						 kbd->chord.queue + queue_offset, 1))
+				queue_offset++;
 
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
-
 	kbd_process_events(kbd,
 			   kbd->chord.queue + queue_offset,
 			   kbd->chord.queue_sz - queue_offset);
-- 
2.43.0


From 7568f1423a1b41b885095ae3ab794ad30d6ff0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 12/79] fix: resolve a chord or timed key instead of aborting
 when its queue is full

---
 src/keyboard.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index e952d85..69a977d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1001,7 +1001,7 @@ static int handle_chord(struct keyboard *kbd,
 
 		enqueue_chord_event(kbd, code, pressed, time);
 
-		if (!pressed)
+		if (!pressed || kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
 			return abort_chord(kbd);
 
 		switch (check_chord_match(kbd, &kbd->chord.match, &kbd->chord.match_layer)) {
@@ -1044,6 +1044,9 @@ static int handle_chord(struct keyboard *kbd,
 					return abort_chord(kbd);
 		}
 
+		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+			return resolve_chord(kbd);
+
 		return 1;
 	}
 
@@ -1107,6 +1110,9 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 			}
 	}
 
+	if (!action.op && kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue))
+		action = kbd->pending_key.action2;
+
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-- 
2.43.0


From 2d632c60f7ecf838de80a25c371ca468853e35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 13/79] fix: process timeouts which elapsed while events were
 held back

---
 src/keyboard.c | 55 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 69a977d..3389721 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -860,10 +860,24 @@ struct keyboard *new_keyboard(struct config *config, const struct output *output
 	return kbd;
 }
 
-static int resolve_chord(struct keyboard *kbd)
+/*
+ * Process events which were held back, along with any timeouts which
+ * elapsed before `time`. `events` must have space for an additional event.
+ */
+static void flush_events(struct keyboard *kbd, struct key_event *events, size_t n, long time)
+{
+	if (!n || events[n-1].timestamp < time)
+		events[n++] = (struct key_event) { .timestamp = time - 1 };
+
+	kbd_process_events(kbd, events, n);
+}
+
+static int resolve_chord(struct keyboard *kbd, long time)
 {
 	size_t queue_offset = 0;
 	const struct chord *chord = kbd->chord.match;
+	struct key_event queue[ARRAY_SIZE(kbd->chord.queue) + 2];
+	size_t queue_sz = 0;
 
 	kbd->chord.state = CHORD_RESOLVING;
 
@@ -889,21 +903,26 @@ static int resolve_chord(struct keyboard *kbd)
 						 kbd->chord.queue + queue_offset, 1))
 				queue_offset++;
 
-			process_event(kbd, code, 1, kbd->chord.last_code_time);
+			queue[queue_sz++] = (struct key_event) {
+				.code = code,
+				.pressed = 1,
+				.timestamp = kbd->chord.last_code_time,
+			};
 		}
 	}
 
-	kbd_process_events(kbd,
-			   kbd->chord.queue + queue_offset,
-			   kbd->chord.queue_sz - queue_offset);
+	while (queue_offset < kbd->chord.queue_sz)
+		queue[queue_sz++] = kbd->chord.queue[queue_offset++];
+
+	flush_events(kbd, queue, queue_sz, time);
 	kbd->chord.state = CHORD_INACTIVE;
 	return 1;
 }
 
-static int abort_chord(struct keyboard *kbd)
+static int abort_chord(struct keyboard *kbd, long time)
 {
 	kbd->chord.match = NULL;
-	return resolve_chord(kbd);
+	return resolve_chord(kbd, time);
 }
 
 static int handle_chord(struct keyboard *kbd,
@@ -974,7 +993,7 @@ static int handle_chord(struct keyboard *kbd,
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					schedule_timeout(kbd, time + hold_timeout);
 				} else {
-					return resolve_chord(kbd);
+					return resolve_chord(kbd, time);
 				}
 				return 1;
 		}
@@ -987,10 +1006,10 @@ static int handle_chord(struct keyboard *kbd,
 						schedule_timeout(kbd, time + timeleft);
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					} else {
-						return resolve_chord(kbd);
+						return resolve_chord(kbd, time);
 					}
 				} else {
-					return abort_chord(kbd);
+					return abort_chord(kbd, time);
 				}
 
 				return 1;
@@ -1002,11 +1021,11 @@ static int handle_chord(struct keyboard *kbd,
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed || kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
-			return abort_chord(kbd);
+			return abort_chord(kbd, time);
 
 		switch (check_chord_match(kbd, &kbd->chord.match, &kbd->chord.match_layer)) {
 			case 0:
-				return abort_chord(kbd);
+				return abort_chord(kbd, time);
 			case 3:
 			case 1:
 				kbd->chord.last_code_time = time;
@@ -1022,14 +1041,14 @@ static int handle_chord(struct keyboard *kbd,
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					schedule_timeout(kbd, time + hold_timeout);
 				} else {
-					return resolve_chord(kbd);
+					return resolve_chord(kbd, time);
 				}
 				return 1;
 		}
 	case CHORD_PENDING_HOLD_TIMEOUT:
 		if (!code) {
 			if ((time - kbd->chord.last_code_time) >= hold_timeout)
-				return resolve_chord(kbd);
+				return resolve_chord(kbd, time);
 
 			return 0;
 		}
@@ -1041,11 +1060,11 @@ static int handle_chord(struct keyboard *kbd,
 
 			for (i = 0; i < kbd->chord.match->sz; i++)
 				if (kbd->chord.match->keys[i] == code)
-					return abort_chord(kbd);
+					return abort_chord(kbd, time);
 		}
 
 		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
-			return resolve_chord(kbd);
+			return resolve_chord(kbd, time);
 
 		return 1;
 	}
@@ -1116,7 +1135,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];
+		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue) + 1];
 		size_t queue_sz = kbd->pending_key.queue_sz;
 
 		uint8_t code = kbd->pending_key.code;
@@ -1136,7 +1155,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
 		/* Flush queued events */
-		kbd_process_events(kbd, queue, queue_sz);
+		flush_events(kbd, queue, queue_sz, time);
 	}
 
 	return 1;
-- 
2.43.0


From 03bf760bb1149d89827d734cb406a32d996e28ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 14/79] fix: do not abort if more than 64 timeouts are
 outstanding

---
 src/keyboard.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 3389721..24c5ae5 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -459,7 +459,27 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 
 static void schedule_timeout(struct keyboard *kbd, long timeout)
 {
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
+	if (kbd->nr_timeouts == ARRAY_SIZE(kbd->timeouts)) {
+		/*
+		 * The list contains timeouts which have since been superseded,
+		 * retain those which are still of consequence.
+		 */
+		size_t n = 0;
+
+		if (kbd->pending_key.code)
+			kbd->timeouts[n++] = kbd->pending_key.expire;
+		if (kbd->oneshot_timeout)
+			kbd->timeouts[n++] = kbd->oneshot_timeout;
+		if (kbd->active_macro && kbd->macro_timeout)
+			kbd->timeouts[n++] = kbd->macro_timeout;
+		if (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION)
+			kbd->timeouts[n++] = kbd->chord.last_code_time + kbd->config.chord_interkey_timeout;
+		if (kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT)
+			kbd->timeouts[n++] = kbd->chord.last_code_time + kbd->config.chord_hold_timeout;
+
+		kbd->nr_timeouts = n;
+	}
+
 	kbd->timeouts[kbd->nr_timeouts++] = timeout;
 }
 
-- 
2.43.0


From 96dddaf91a2ac8cded89afa40224f68e236c726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 15/79] fix: only replace the action of a chord which consists
 of the same keys

---
 src/config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config.c b/src/config.c
index 74383aa..a764559 100644
--- a/src/config.c
+++ b/src/config.c
@@ -209,6 +209,9 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 		size_t nm = 0;
 		struct chord *chord = &layer->chords[i];
 
+		if (chord->sz != n)
+			continue;
+
 		for (j = 0; j < n; j++) {
 			size_t k;
 			for (k = 0; k < chord->sz; k++)
-- 
2.43.0


From 80be1b3e7abe3be1d9f0b6ecb13ebf0e5f5f3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 16/79] fix: do not abort if a layer is swapped while a toggle
 key is held

---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 24c5ae5..115a52e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -740,8 +740,9 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 		if (pressed) {
 			kbd->layer_state[idx].toggled = !kbd->layer_state[idx].toggled;
 
+			/* The layer is not bound to the lifetime of the key. */
 			if (kbd->layer_state[idx].toggled)
-				activate_layer(kbd, code, idx);
+				activate_layer(kbd, 0, idx);
 			else
 				deactivate_layer(kbd, idx);
 
-- 
2.43.0


From 4f4c340c6cef9272e313635282554bfedeac3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 17/79] fix: terminate the forked child if a command cannot be
 executed

---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 115a52e..c332ac4 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -399,6 +399,7 @@ static void execute_command(const char *cmd)
 	dup2(fd, 2);
 
 	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
+	_exit(127);
 }
 
 static void clear_oneshot(struct keyboard *kbd)
-- 
2.43.0


From 9756d659a17aa345385eadaf2ee569f24ef72e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 18/79] fix: restore layer modifiers which are released by a
 macro

---
 src/keyboard.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index c332ac4..6b176f4 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -157,8 +157,28 @@ static void update_mods(struct keyboard *kbd, int excluded_layer_idx, uint8_t mo
 	set_mods(kbd, mods);
 }
 
+static int macro_uses_modifier(const struct macro *macro, const struct modifier *mod)
+{
+	size_t i;
+
+	for (i = 0; i < macro->sz; i++) {
+		const struct macro_entry *ent = &macro->entries[i];
+
+		if (ent->type == MACRO_KEYSEQUENCE && (ent->data >> 8) & mod->mask)
+			return 1;
+
+		if ((ent->type == MACRO_KEYSEQUENCE || ent->type == MACRO_HOLD) &&
+		    (ent->data & 0xFF) == mod->key)
+			return 1;
+	}
+
+	return 0;
+}
+
 static void execute_macro(struct keyboard *kbd, int dl, const struct macro *macro)
 {
+	size_t i;
+
 	/* Minimize redundant modifier strokes for simple key sequences. */
 	if (macro->sz == 1 && macro->entries[0].type == MACRO_KEYSEQUENCE) {
 		uint8_t code = macro->entries[0].data;
@@ -170,6 +190,12 @@ static void execute_macro(struct keyboard *kbd, int dl, const struct macro *macr
 	} else {
 		update_mods(kbd, dl, 0);
 		macro_execute(kbd->output.send_key, macro, kbd->config.macro_sequence_timeout);
+
+		/* Macros release everything they press, including held modifiers. */
+		for (i = 0; i < ARRAY_SIZE(modifiers); i++)
+			if (kbd->keystate[modifiers[i].key] &&
+			    macro_uses_modifier(macro, &modifiers[i]))
+				kbd->output.send_key(modifiers[i].key, 1);
 	}
 }
 
-- 
2.43.0


From 84f22c700d2c55c6db42cfd1d8cb4323ddad03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 19/79] fix: do not reuse an active chord before its release
 has been processed

---
 src/keyboard.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 6b176f4..a676ab0 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1004,10 +1004,8 @@ static int handle_chord(struct keyboard *kbd,
 				}
 
 				if (found) {
-					if (nremaining == 0) {
-						ac->active = 0;
+					if (nremaining == 0)
 						process_event(kbd, chord_code, 0, time);
-					}
 
 					return 1;
 				}
@@ -1263,6 +1261,10 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 				goto exit;
 		} else {
 			struct cache_entry *ce;
+
+			if (code >= KEYD_CHORD_1 && code <= KEYD_CHORD_MAX)
+				kbd->active_chords[code - KEYD_CHORD_1].active = 0;
+
 			if (!(ce = cache_get(kbd, code)))
 				goto exit;
 
-- 
2.43.0


From 2b73676748a18038f1114d457b217d5f53238b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 20/79] fix: keep events in order if a timed key is resolved
 while a chord is in progress

---
 src/keyboard.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index a676ab0..c25b744 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -985,7 +985,7 @@ static int handle_chord(struct keyboard *kbd,
 			struct active_chord *ac = &kbd->active_chords[i];
 			uint8_t chord_code = KEYD_CHORD_1 + i;
 
-			if (ac->active) {
+			if (ac->active == 1) {
 				size_t i;
 				int nremaining = 0;
 				int found = 0;
@@ -1184,8 +1184,10 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue) + 1];
 		size_t queue_sz = kbd->pending_key.queue_sz;
 
+		size_t i;
 		uint8_t code = kbd->pending_key.code;
 		int dl = kbd->pending_key.dl;
+		int chord_state = kbd->chord.state;
 
 		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);
 
@@ -1200,8 +1202,26 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		});
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
+		/*
+		 * The queued events precede those which are part of a chord
+		 * that is in progress or being held.
+		 */
+		if (chord_state != CHORD_INACTIVE)
+			kbd->chord.state = CHORD_RESOLVING;
+
+		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++)
+			if (kbd->active_chords[i].active)
+				kbd->active_chords[i].active++;
+
 		/* Flush queued events */
 		flush_events(kbd, queue, queue_sz, time);
+
+		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++)
+			if (kbd->active_chords[i].active > 1)
+				kbd->active_chords[i].active--;
+
+		if (chord_state != CHORD_INACTIVE)
+			kbd->chord.state = chord_state;
 	}
 
 	return 1;
-- 
2.43.0


From 8ec87e8a5e9ab291826f88339c0d39ba3fc53d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 21/79] fix: reject bindings without a key

---
 src/config.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/config.c b/src/config.c
index a764559..8651757 100644
--- a/src/config.c
+++ b/src/config.c
@@ -263,6 +263,11 @@ static int set_layer_entry(const struct config *config,
 		}
 
 
+		if (!n) {
+			err("chords must contain at least one key");
+			return -1;
+		}
+
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
 		} else {
@@ -280,6 +285,11 @@ static int set_layer_entry(const struct config *config,
 			layer->nr_chords++;
 		}
 	} else {
+		if (!key[0]) {
+			err("missing key");
+			return -1;
+		}
+
 		for (i = 0; i < 256; i++) {
 			if (!strcmp(config->aliases[i], key)) {
 				layer->keymap[i] = *d;
-- 
2.43.0


From f82d9ac9c9b8506554eaa2d331e9d4a612509f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 22/79] fix: type the first character of the unicode table

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index ad6f129..ceb3954 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
-- 
2.43.0


From 317d017805c756ead53db961501707b0e09dba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 23/79] fix: enforce the maximum number of constituents of a
 composite layer

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 8651757..92ce121 100644
--- a/src/config.c
+++ b/src/config.c
@@ -328,7 +328,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -346,7 +345,7 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
 				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
-- 
2.43.0


From 954924ea68931bc8ba26c1d0c07659ecb31f861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 24/79] fix: do not crash on sections without a name

---
 src/config.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 92ce121..7acaf6f 100644
--- a/src/config.c
+++ b/src/config.c
@@ -390,6 +390,11 @@ static int config_add_layer(struct config *config, const char *s)
 	strcpy(buf, s);
 	name = strtok(buf, ":");
 
+	if (!name) {
+		err("sections must have a name");
+		return -1;
+	}
+
 	if (config_get_layer_index(config, name) != -1)
 			return 1;
 
@@ -880,7 +885,8 @@ static int config_parse_string(struct config *config, char *content)
 		    !strcmp(section->name, "global"))
 			continue;
 
-		layername = strtok(section->name, ":");
+		if (!(layername = strtok(section->name, ":")))
+			continue;
 
 		for (j = 0; j < section->nr_entries;j++) {
 			char entry[MAX_EXP_LEN];
-- 
2.43.0


From 39ffbc3e92f9ee27bcfe233f3d1377b2e92d9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 25/79] fix: do not read or write past the end of a line or the
 config buffer

---
 src/config.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index 7acaf6f..4b51c88 100644
--- a/src/config.c
+++ b/src/config.c
@@ -123,7 +123,7 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
-		if (line[len-1] != '\n') {
+		if (!len || line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
 				goto fail;
@@ -132,7 +132,7 @@ static char *read_file(const char *path)
 			}
 		}
 
-		if ((len+sz) > MAX_FILE_SZ) {
+		if ((len+sz) >= MAX_FILE_SZ) {
 			err("maximum file size exceed (%d)", MAX_FILE_SZ);
 			goto fail;
 		}
@@ -161,12 +161,12 @@ static char *read_file(const char *path)
 				perror("open");
 			} else {
 				int n;
-				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
+				while ((n = read(fd, buf+sz, sizeof(buf)-1-sz)) > 0)
 					sz += n;
 				close(fd);
 			}
 		} else {
-			strcpy(buf+sz, line);
+			memcpy(buf+sz, line, len);
 			sz += len;
 		}
 	}
-- 
2.43.0


From ca9c7b4ee4686b538c3a2414b9caf24b3717af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 26/79] fix: do not merge the last line of an included file
 with the one after the include

---
 src/config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config.c b/src/config.c
index 4b51c88..9f40ff4 100644
--- a/src/config.c
+++ b/src/config.c
@@ -164,6 +164,9 @@ static char *read_file(const char *path)
 				while ((n = read(fd, buf+sz, sizeof(buf)-1-sz)) > 0)
 					sz += n;
 				close(fd);
+
+				if (sz && buf[sz-1] != '\n' && sz < (int)sizeof(buf)-1)
+					buf[sz++] = '\n';
 			}
 		} else {
 			memcpy(buf+sz, line, len);
-- 
2.43.0


From b0b7cfde9a12d596972feb571a534e1e395b561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 27/79] fix: do not abort on malformed UTF-8

---
 src/string.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..097f85d 100644
--- a/src/string.c
+++ b/src/string.c
@@ -7,26 +7,37 @@
 
 #include "string.h"
 
+/*
+ * Malformed sequences are consumed one byte at a time and
+ * yield an invalid code point.
+ */
+
 int utf8_read_char(const char *_s, uint32_t *code)
 {
 	const unsigned char *s = (const unsigned char*)_s;
+	int i, n;
 
 	if (!s[0])
 		return 0;
 
+	n = s[0] >= 0xF0 ? 3 : s[0] >= 0xE0 ? 2 : s[0] >= 0xC0 ? 1 : 0;
+
+	for (i = 1; i <= n; i++)
+		if ((s[i] & 0xC0) != 0x80)
+			break;
+
+	if (i <= n || s[0] >= 0xF8 || (s[0] & 0xC0) == 0x80) {
+		*code = UINT32_MAX;
+		return 1;
+	}
+
 	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
 	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
 	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
 	} else {
-- 
2.43.0


From 02dbaf31f1313cffe62ce8f8f996862480b04f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 28/79] fix: ignore excess sections and entries instead of
 aborting

---
 src/ini.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ini.c b/src/ini.c
index 6029293..a428adb 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -14,6 +14,7 @@
 #include <assert.h>
 
 #include "ini.h"
+#include "log.h"
 #define MAX_INI_SIZE 65536
 
 /*
@@ -72,6 +73,7 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 
 	int ln = 0;
 	size_t n = 0;
+	int skip = 0;
 
 	struct ini_section *section = NULL;
 
@@ -107,13 +109,17 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
+				skip = n >= MAX_SECTIONS;
+				if (skip) {
+					keyd_log("\ty{WARNING:} line %d: maximum number of sections (%d) exceeded\n", ln, MAX_SECTIONS);
+					continue;
+				}
 
 				section = &ini.sections[n++];
 
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				snprintf(section->name, sizeof(section->name), "%s", line+1);
 				section->nr_entries = 0;
 				section->lnum = ln;
 
@@ -136,7 +142,13 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 				return NULL;
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (skip)
+			continue;
+
+		if (section->nr_entries >= MAX_SECTION_ENTRIES) {
+			keyd_log("\ty{WARNING:} line %d: maximum number of section entries (%d) exceeded\n", ln, MAX_SECTION_ENTRIES);
+			continue;
+		}
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From e58f0c4f4dca5fab1dbf4eb973e05874b794b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 29/79] fix: ignore excess device ids instead of aborting

---
 src/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config.c b/src/config.c
index 9f40ff4..00a86a5 100644
--- a/src/config.c
+++ b/src/config.c
@@ -793,6 +793,8 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
+		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {
+			warn("max ids (%d) exceeded, ignoring %s", ARRAY_SIZE(config->ids), s);
 		} else if (strstr(s, "m:") == s) {
 			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
-- 
2.43.0


From daf7ee0b381edddd8a37ab7985bd8825b7b38109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 30/79] fix: reject actions with too many arguments instead of
 aborting

---
 src/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 00a86a5..bcd0838 100644
--- a/src/config.c
+++ b/src/config.c
@@ -473,7 +473,9 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
+
 			args[(*nargs)++] = arg;
 		}
 
-- 
2.43.0


From 549d5f3801eb524ce1b469c0cc82b3192e80d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 31/79] fix: do not crash on options and aliases without a
 value

---
 src/config.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/config.c b/src/config.c
index bcd0838..8634e24 100644
--- a/src/config.c
+++ b/src/config.c
@@ -758,6 +758,11 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
+		if (!ent->val) {
+			warn("line %zd: missing value for %s", ent->lnum, ent->key);
+			continue;
+		}
+
 		if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
@@ -832,6 +837,11 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
+		if (!name) {
+			warn("line %zd: missing alias for %s", ent->lnum, ent->key);
+			continue;
+		}
+
 		if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
-- 
2.43.0


From 760d08621f31bd3c9576f598086915d5d63b3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 32/79] fix: do not treat the empty string as a key name

---
 src/keys.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keys.c b/src/keys.c
index 77d055f..defc8a6 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -44,7 +44,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_LEFTBRACE] = { "[", "leftbrace", "{" },
 	[KEYD_RIGHTBRACE] = { "]", "rightbrace", "}" },
 	[KEYD_ENTER] = { "enter", NULL, NULL },
-	[KEYD_LEFTCTRL] = { "leftcontrol", "", NULL },
+	[KEYD_LEFTCTRL] = { "leftcontrol", NULL, NULL },
 	[KEYD_IS_LEVEL3_SHIFT] = { "iso-level3-shift", NULL, NULL }, //Oddly missing from input-event-codes.h, appears to be used as altgr in an english keymap on X
 	[KEYD_A] = { "a", NULL, "A" },
 	[KEYD_S] = { "s", NULL, "S" },
@@ -58,7 +58,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SEMICOLON] = { ";", "semicolon", ":" },
 	[KEYD_APOSTROPHE] = { "'", "apostrophe", "\"" },
 	[KEYD_GRAVE] = { "`", "grave", "~" },
-	[KEYD_LEFTSHIFT] = { "leftshift", "", NULL },
+	[KEYD_LEFTSHIFT] = { "leftshift", NULL, NULL },
 	[KEYD_BACKSLASH] = { "\\", "backslash", "|" },
 	[KEYD_Z] = { "z", NULL, "Z" },
 	[KEYD_X] = { "x", NULL, "X" },
@@ -72,7 +72,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SLASH] = { "/", "slash", "?" },
 	[KEYD_RIGHTSHIFT] = { "rightshift", NULL, NULL },
 	[KEYD_KPASTERISK] = { "kpasterisk", NULL, NULL },
-	[KEYD_LEFTALT] = { "leftalt", "", NULL },
+	[KEYD_LEFTALT] = { "leftalt", NULL, NULL },
 	[KEYD_SPACE] = { "space", NULL, NULL },
 	[KEYD_CAPSLOCK] = { "capslock", NULL, NULL },
 	[KEYD_F1] = { "f1", NULL, NULL },
@@ -140,7 +140,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_HANGEUL] = { "hangeul", NULL, NULL },
 	[KEYD_HANJA] = { "hanja", NULL, NULL },
 	[KEYD_YEN] = { "yen", NULL, NULL },
-	[KEYD_LEFTMETA] = { "leftmeta", "", NULL },
+	[KEYD_LEFTMETA] = { "leftmeta", NULL, NULL },
 	[KEYD_RIGHTMETA] = { "rightmeta", NULL, NULL },
 	[KEYD_COMPOSE] = { "compose", NULL, NULL },
 	[KEYD_STOP] = { "stop", NULL, NULL },
@@ -353,7 +353,7 @@ int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
 
 	uint8_t mods = 0;
 
-	while (c[1] == '-') {
+	while (c[0] && c[1] == '-') {
 		switch (*c) {
 		case 'C':
 			mods |= MOD_CTRL;
-- 
2.43.0


From c4ea22820474218d10655446d649b1857a74a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 33/79] fix: use the full layer name to look up the default
 layout

---
 src/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.h b/src/config.h
index 0d77832..69052dc 100644
--- a/src/config.h
+++ b/src/config.h
@@ -144,7 +144,7 @@ struct config {
 
 	uint8_t layer_indicator;
 	uint8_t disable_modifier_guard;
-	char default_layout[MAX_LAYER_NAME_LEN];
+	char default_layout[MAX_LAYER_NAME_LEN+1];
 };
 
 int config_parse(struct config *config, const char *path);
-- 
2.43.0


From 1669db374ba3aa1f83853dbcbe55b9bc3d9bfcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 34/79] fix: do not use up config slots for rejected bindings

---
 src/config.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 8634e24..734df63 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1025,6 +1025,9 @@ int config_add_entry(struct config *config, const char *exp)
 	struct descriptor d;
 	struct layer *layer;
 	int idx;
+	size_t nr_macros = config->nr_macros;
+	size_t nr_descriptors = config->nr_descriptors;
+	size_t nr_commands = config->nr_commands;
 
 	static char buf[MAX_EXP_LEN];
 
@@ -1055,9 +1058,14 @@ int config_add_entry(struct config *config, const char *exp)
 
 	layer = &config->layers[idx];
 
-	if (parse_descriptor(descstr, &d, config) < 0)
+	if (parse_descriptor(descstr, &d, config) < 0 ||
+	    set_layer_entry(config, layer, keyname, &d) < 0) {
+		config->nr_macros = nr_macros;
+		config->nr_descriptors = nr_descriptors;
+		config->nr_commands = nr_commands;
 		return -1;
+	}
 
-	return set_layer_entry(config, layer, keyname, &d);
+	return 0;
 }
 
-- 
2.43.0


From e7c444d4e999cf1c0aa05678598487308475d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 35/79] fix: do not use the arguments of lettermod() after
 their lifetime

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 734df63..e31088a 100644
--- a/src/config.c
+++ b/src/config.c
@@ -636,10 +636,9 @@ static int parse_descriptor(char *s,
 		return 0;
 	} else if (!parse_fn(s, &fn, args, &nargs)) {
 		int i;
+		char buf[1024];
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
-
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
 				return -1;
-- 
2.43.0


From b6ab981a4601ad037f144dd50da69a5a4a8cafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 36/79] fix: do not truncate timestamps

---
 src/daemon.c   | 4 ++--
 src/evloop.c   | 4 ++--
 src/keyboard.c | 4 ++--
 src/keyboard.h | 2 +-
 src/keyd.h     | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..e4524ea 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -460,7 +460,7 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -476,7 +476,7 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
+	static long last_time = 0;
 	static int timeout = 0;
 	struct key_event kev = {0};
 
diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..ae5a31a 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -57,8 +57,8 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
-		int elapsed;
+		long start_time;
+		long elapsed;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
diff --git a/src/keyboard.c b/src/keyboard.c
index c25b744..c9de209 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1306,8 +1306,8 @@ exit:
 long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
 {
 	size_t i = 0;
-	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout = 0;
+	long timeout_ts = 0;
 
 	while (i != n) {
 		const struct key_event *ev = &events[i];
diff --git a/src/keyboard.h b/src/keyboard.h
index 13f3870..5acad11 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..2ab177b 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
-- 
2.43.0


From 09476195424a8c1281169b8bc1e86feba2ebd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 37/79] fix: account for the time spent processing events when
 waiting for a timeout

---
 src/evloop.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/evloop.c b/src/evloop.c
index ae5a31a..787d07a 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -42,10 +42,11 @@ int evloop(int (*event_handler) (struct event *ev))
 
 	struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];
 
-	struct event ev;
+	struct event ev = {0};
 
 	monfd = devmon_create();
 	device_table_sz = device_scan(device_table);
+	ev.timestamp = get_time_ms();
 
 	for (i = 0; i < device_table_sz; i++) {
 		ev.type = EV_DEV_ADD;
@@ -57,8 +58,9 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		long start_time;
+		long start_time = ev.timestamp;
 		long elapsed;
+		long remaining = -1;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
@@ -73,8 +75,14 @@ int evloop(int (*event_handler) (struct event *ev))
 			pfds[i+device_table_sz+1].events = POLLIN | POLLERR;
 		}
 
-		start_time = get_time_ms();
-		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);
+		/* The timeout is relative to the most recent event. */
+		if (timeout > 0) {
+			remaining = timeout - (get_time_ms() - start_time);
+			if (remaining < 0)
+				remaining = 0;
+		}
+
+		poll(pfds, device_table_sz+nr_aux_fds+1, remaining);
 		ev.timestamp = get_time_ms();
 		elapsed = ev.timestamp - start_time;
 
-- 
2.43.0


From d0653d6ad576bb139947ec7a55a009d0ca13f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 38/79] fix: do not act on stale poll results if poll() is
 interrupted

---
 src/evloop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 787d07a..c9cfb7d 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -82,7 +82,9 @@ int evloop(int (*event_handler) (struct event *ev))
 				remaining = 0;
 		}
 
-		poll(pfds, device_table_sz+nr_aux_fds+1, remaining);
+		if (poll(pfds, device_table_sz+nr_aux_fds+1, remaining) < 0)
+			continue;
+
 		ev.timestamp = get_time_ms();
 		elapsed = ev.timestamp - start_time;
 
-- 
2.43.0


From fd2f55e48ac9e3c7f3f0ef23535953233b54fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 39/79] fix: ignore excess devices instead of aborting

---
 src/device.c | 6 +++++-
 src/evloop.c | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..918ccc5 100644
--- a/src/device.c
+++ b/src/device.c
@@ -226,7 +226,11 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
+			if (n >= MAX_DEVICES) {
+				keyd_log("y{WARNING:} maximum number of devices (%d) exceeded, ignoring %s\n", MAX_DEVICES, ent->d_name);
+				continue;
+			}
+
 			struct device_worker *w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
diff --git a/src/evloop.c b/src/evloop.c
index c9cfb7d..53f6fc8 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -141,7 +141,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz >= MAX_DEVICES) {
+					keyd_log("y{WARNING:} maximum number of devices (%d) exceeded, ignoring %s\n", MAX_DEVICES, dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From 3a699644a63ac357368035a4513fe733474a1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 40/79] fix: only consider keys when checking for the panic
 sequence

---
 src/evloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 53f6fc8..8cd3cee 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -113,7 +113,8 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY)
+							panic_check(devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 277e3fbc09f2c6decf31f83f0a9083dac3aa51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 41/79] fix: deliver timeouts to all keyboards, even if they
 are overdue

---
 src/daemon.c | 66 ++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index e4524ea..a266c9a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -3,6 +3,7 @@
 struct config_ent {
 	struct config config;
 	struct keyboard *kbd;
+	long deadline; /* The time at which the keyboard must be called (0 if none). */
 	struct config_ent *next;
 };
 
@@ -460,40 +461,38 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
+static void process_key(struct keyboard *kbd, uint8_t code, uint8_t pressed, long timestamp)
 {
+	struct config_ent *ent;
 	struct key_event kev = {
 		.code = code,
-		.pressed = 1,
+		.pressed = pressed,
 		.timestamp = timestamp
 	};
 
-	kbd_process_events(kbd, &kev, 1);
+	long timeout = kbd_process_events(kbd, &kev, 1);
 
-	kev.pressed = 0;
-	return kbd_process_events(kbd, &kev, 1);
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->kbd == kbd)
+			ent->deadline = timeout > 0 ? timestamp + timeout : 0;
 }
 
-static int event_handler(struct event *ev)
+static void process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
-	static long last_time = 0;
-	static int timeout = 0;
-	struct key_event kev = {0};
-
-	timeout -= ev->timestamp - last_time;
-	last_time = ev->timestamp;
+	process_key(kbd, code, 1, timestamp);
+	process_key(kbd, code, 0, timestamp);
+}
 
-	timeout = timeout < 0 ? 0 : timeout;
+static int event_handler(struct event *ev)
+{
+	struct config_ent *ent;
+	long timeout = 0;
 
 	switch (ev->type) {
 	case EV_TIMEOUT:
-		if (!active_kbd)
-			return 0;
-
-		kev.code = 0;
-		kev.timestamp = ev->timestamp;
-
-		timeout = kbd_process_events(active_kbd, &kev, 1);
+		for (ent = configs; ent; ent = ent->next)
+			if (ent->deadline && ent->deadline <= ev->timestamp)
+				process_key(ent->kbd, 0, 0, ev->timestamp);
 		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
@@ -504,11 +503,7 @@ static int event_handler(struct event *ev)
 			case DEV_KEY:
 				dbg("input %s %s", KEY_NAME(ev->devev->code), ev->devev->pressed ? "down" : "up");
 
-				kev.code = ev->devev->code;
-				kev.pressed = ev->devev->pressed;
-				kev.timestamp = ev->timestamp;
-
-				timeout = kbd_process_events(kbd, &kev, 1);
+				process_key(kbd, ev->devev->code, ev->devev->pressed, ev->timestamp);
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -538,16 +533,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
 				}
 				break;
 			default:
@@ -555,7 +550,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
@@ -593,6 +588,17 @@ static int event_handler(struct event *ev)
 		break;
 	}
 
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->deadline) {
+			long left = ent->deadline - ev->timestamp;
+
+			if (left < 1)
+				left = 1;
+
+			if (!timeout || left < timeout)
+				timeout = left;
+		}
+
 	return timeout;
 }
 
-- 
2.43.0


From eec14476c7eaba53fa82ae696d9f3816e1536942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 42/79] fix: do not use the active keyboard after it has been
 freed by a reload

---
 src/daemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon.c b/src/daemon.c
index a266c9a..09b15f9 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -285,6 +285,7 @@ static void reload()
 	size_t i;
 
 	free_configs();
+	active_kbd = NULL;
 	load_configs();
 
 	for (i = 0; i < device_table_sz; i++)
-- 
2.43.0


From e2824029e25ac035627596427c6e04e4821d0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 43/79] fix: do not terminate if an LED cannot be set

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 918ccc5..a91a90a 100644
--- a/src/device.c
+++ b/src/device.c
@@ -587,5 +587,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* The device may have been removed in the meantime. */
+	if (write(dev->fd, &ev, sizeof ev) < 0)
+		dbg("failed to set led of %s", dev->path);
 }
-- 
2.43.0


From 9a9382f0389d4ca72a7b45b6e4be9f83845d8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 44/79] fix: do not let clients block or terminate the daemon

---
 src/daemon.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 09b15f9..6e709be 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -87,7 +87,8 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		if (send(con, s, sizeof s, MSG_NOSIGNAL) < 0)
+			perror("send");
 
 		close(con);
 		return;
@@ -294,6 +295,23 @@ static void reload()
 	clear_vkbd();
 }
 
+static void set_client_timeout(int con)
+{
+	struct timeval tv = { .tv_sec = 0, .tv_usec = 100000 };
+
+	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
+	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
+}
+
+static void send_reply(int con, const struct ipc_message *msg)
+{
+	/* The client may have gone away or not be reading. */
+	if (send(con, msg, sizeof *msg, MSG_NOSIGNAL) < 0)
+		perror("send");
+
+	close(con);
+}
+
 static void send_success(int con)
 {
 	struct ipc_message msg = {0};
@@ -301,8 +319,7 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
-	close(con);
+	send_reply(con, &msg);
 }
 
 static void send_fail(int con, const char *fmt, ...)
@@ -315,8 +332,7 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
-	close(con);
+	send_reply(con, &msg);
 
 	va_end(args);
 }
@@ -390,7 +406,12 @@ static void handle_client(int con)
 {
 	struct ipc_message msg;
 
-	xread(con, &msg, sizeof msg);
+	set_client_timeout(con);
+
+	if (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -579,7 +600,7 @@ static int event_handler(struct event *ev)
 			int con = accept(ipcfd, NULL, 0);
 			if (con < 0) {
 				perror("accept");
-				exit(-1);
+				break;
 			}
 
 			handle_client(con);
-- 
2.43.0


From 8c61d934b19f6e1b9cd2b7a1ad5fee3c3f879ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 45/79] fix: do not wait forever for a reply if the daemon
 closes the connection

---
 src/util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.c b/src/util.c
index 8e35ec5..061f2b5 100644
--- a/src/util.c
+++ b/src/util.c
@@ -26,6 +26,10 @@ void xread(int fd, void *buf, size_t sz)
 			perror("read");
 			exit(-1);
 		}
+		if (n == 0) {
+			fprintf(stderr, "ERROR: connection closed\n");
+			exit(-1);
+		}
 		nrd += n;
 	}
 }
-- 
2.43.0


From 7193d6f9dcb23710d53932def38707d49acdcf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 46/79] fix: do not leak the lock and the sockets to commands

---
 src/daemon.c | 1 +
 src/ipc.c    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 6e709be..728fd34 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -603,6 +603,7 @@ static int event_handler(struct event *ev)
 				break;
 			}
 
+			fcntl(con, F_SETFD, FD_CLOEXEC);
 			handle_client(con);
 		}
 		break;
diff --git a/src/ipc.c b/src/ipc.c
index e6cbe43..53d9b53 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -47,7 +47,7 @@ int ipc_connect()
 int ipc_create_server()
 {
 	char lockpath[PATH_MAX];
-	int sd = socket(AF_UNIX, SOCK_STREAM, 0);
+	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 	int lfd;
 	struct sockaddr_un addr = {0};
 
@@ -60,7 +60,7 @@ int ipc_create_server()
 	addr.sun_family = AF_UNIX;
 	strncpy(addr.sun_path, SOCKET_PATH, sizeof(addr.sun_path)-1);
 	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
-	lfd = open(lockpath, O_CREAT | O_RDONLY, 0600);
+	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);
 
 	if (lfd < 0) {
 		perror("open");
-- 
2.43.0


From 189ee6a855641c9f37b456384d4144bd3d106aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 47/79] fix: enable the voice command key of the virtual
 keyboard

---
 src/vkbd/uinput.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..f856107 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -84,6 +84,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
-- 
2.43.0


From a21c759baa43aec0eb26e84aeeecc0d178086d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 48/79] fix: ignore unrecognized absolute axes

---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index a91a90a..2f4c15a 100644
--- a/src/device.c
+++ b/src/device.c
@@ -457,7 +457,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
-- 
2.43.0


From 797faa244bc5c2602e3a7b3242eb17f391eb18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 49/79] fix: do not mistake touch events for keys

---
 src/device.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device.c b/src/device.c
index 2f4c15a..a4c0a78 100644
--- a/src/device.c
+++ b/src/device.c
@@ -554,6 +554,8 @@ struct device_event *device_read_event(struct device *dev)
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
 						return NULL;
 					}
+
+					ev.code = KEYD_EXTERNAL_MOUSE_BUTTON;
 			}
 		}
 
-- 
2.43.0


From 2cd1c0eb00068ee1f85d468ce259549594df6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 50/79] fix: translate absolute positions relative to the
 minimum of the axis

---
 src/device.c      | 13 +++++++++----
 src/device.h      | 13 ++++++++-----
 src/vkbd/uinput.c |  4 ++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/device.c b/src/device.c
index a4c0a78..5b6aaf4 100644
--- a/src/device.c
+++ b/src/device.c
@@ -380,6 +380,11 @@ int device_ungrab(struct device *dev)
 	}
 }
 
+static int32_t scale_abs(int64_t value, int64_t min, int64_t max)
+{
+	return value <= min || max <= min ? 0 : (value - min) * 1024 / (max - min);
+}
+
 /*
  * Read a device event from the given device or return
  * NULL if none are available (may happen in the
@@ -445,14 +450,14 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
-			devev.y = 0;
+			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
+			devev.y = -1;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
-			devev.x = 0;
+			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
+			devev.x = -1;
 
 			break;
 		default:
diff --git a/src/device.h b/src/device.h
index 0a12699..df1e159 100644
--- a/src/device.h
+++ b/src/device.h
@@ -30,10 +30,10 @@ struct device {
 	char path[256];
 
 	/* Internal. */
-	uint32_t _maxx;
-	uint32_t _maxy;
-	uint32_t _minx;
-	uint32_t _miny;
+	int32_t _maxx;
+	int32_t _maxy;
+	int32_t _minx;
+	int32_t _miny;
 
 	/* Reserved for the user. */
 	void *data;
@@ -45,7 +45,10 @@ struct device_event {
 		DEV_LED,
 
 		DEV_MOUSE_MOVE,
-		/* All absolute values are relative to a resolution of 1024x1024. */
+		/*
+		 * All absolute values are relative to a resolution of 1024x1024,
+		 * negative values correspond to axes which have not changed.
+		 */
 		DEV_MOUSE_MOVE_ABS,
 		DEV_MOUSE_SCROLL,
 
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index f856107..20390cc 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -307,7 +307,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 {
 	struct input_event ev;
 
-	if (x) {
+	if (x >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_X;
 		ev.value = x;
@@ -318,7 +318,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 		xwrite(vkbd->pfd, &ev, sizeof(ev));
 	}
 
-	if (y) {
+	if (y >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_Y;
 		ev.value = y;
-- 
2.43.0


From dd7876bb7f2e3828e42f9756e736437e86a7dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 51/79] fix: close devices which have been removed

---
 src/device.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device.c b/src/device.c
index 5b6aaf4..938bb1e 100644
--- a/src/device.c
+++ b/src/device.c
@@ -401,6 +401,7 @@ struct device_event *device_read_event(struct device *dev)
 		if (errno == EAGAIN) {
 			return NULL;
 		} else {
+			close(dev->fd);
 			dev->fd = -1;
 			devev.type = DEV_REMOVED;
 			return &devev;
-- 
2.43.0


From 39a042420e54807fff027708c3bf18c5c9031a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 52/79] fix: close devices which cannot be initialized

---
 src/device.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 938bb1e..a75a81e 100644
--- a/src/device.c
+++ b/src/device.c
@@ -136,13 +136,15 @@ static int device_init(const char *path, struct device *dev)
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
 	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
-		keyd_log("ERROR: could not fetch device name of %s\n", dev->path);
+		keyd_log("ERROR: could not fetch device name of %s\n", path);
+		close(fd);
 		return -1;
 	}
 
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -151,6 +153,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -165,6 +168,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
+			close(fd);
 			return -1;
 		}
 
-- 
2.43.0


From 5db127589c8a0266322a30964524f2855cfc8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 53/79] fix: terminate the names of devices

---
 src/device.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index a75a81e..65c9439 100644
--- a/src/device.c
+++ b/src/device.c
@@ -135,7 +135,8 @@ static int device_init(const char *path, struct device *dev)
 
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
-	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
+	memset(dev->name, 0, sizeof(dev->name));
+	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)-1), dev->name) == -1) {
 		keyd_log("ERROR: could not fetch device name of %s\n", path);
 		close(fd);
 		return -1;
-- 
2.43.0


From b026f9ac2a0b0345e5e1aed1535abb63b6e83447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 54/79] fix: release the keys of devices which have been
 removed

---
 src/daemon.c | 10 ++++++++++
 src/device.c |  1 +
 src/device.h |  1 +
 3 files changed, 12 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index 728fd34..28c333f 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -525,6 +525,7 @@ static int event_handler(struct event *ev)
 			case DEV_KEY:
 				dbg("input %s %s", KEY_NAME(ev->devev->code), ev->devev->pressed ? "down" : "up");
 
+				ev->dev->keystate[ev->devev->code] = ev->devev->pressed;
 				process_key(kbd, ev->devev->code, ev->devev->pressed, ev->timestamp);
 				break;
 			case DEV_MOUSE_MOVE:
@@ -594,6 +595,15 @@ static int event_handler(struct event *ev)
 	case EV_DEV_REMOVE:
 		keyd_log("DEVICE: r{removed}\t%s %s\n", ev->dev->id, ev->dev->name);
 
+		/* Release any keys which were still being held. */
+		if (ev->dev->data) {
+			size_t i;
+
+			for (i = 0; i < 256; i++)
+				if (ev->dev->keystate[i])
+					process_key(ev->dev->data, i, 0, ev->timestamp);
+		}
+
 		break;
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
diff --git a/src/device.c b/src/device.c
index 65c9439..33a354f 100644
--- a/src/device.c
+++ b/src/device.c
@@ -190,6 +190,7 @@ static int device_init(const char *path, struct device *dev)
 		dev->capabilities = capabilities;
 		dev->data = NULL;
 		dev->grabbed = 0;
+		memset(dev->keystate, 0, sizeof(dev->keystate));
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
diff --git a/src/device.h b/src/device.h
index df1e159..f7d139e 100644
--- a/src/device.h
+++ b/src/device.h
@@ -37,6 +37,7 @@ struct device {
 
 	/* Reserved for the user. */
 	void *data;
+	uint8_t keystate[256];
 };
 
 struct device_event {
-- 
2.43.0


From 853988de6443940e84586d3f6b87877e50df44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 55/79] fix: terminate the last line of a config that lacks a
 newline

---
 src/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.c b/src/config.c
index e31088a..8f26c6f 100644
--- a/src/config.c
+++ b/src/config.c
@@ -129,6 +129,7 @@ static char *read_file(const char *path)
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
-- 
2.43.0


From 05136427c1548170745c16f93cc9ac31d47e6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 56/79] fix: reset does not invalidate runtime bindings that
 are still in use

---
 src/keyboard.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index c9de209..7021dba 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1325,10 +1325,39 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 	return timeout;
 }
 
+/* Is there anything which might refer to the bindings currently in effect? */
+static int has_active_bindings(struct keyboard *kbd)
+{
+	size_t i;
+
+	for (i = 0; i < CACHE_SIZE; i++)
+		if (kbd->cache[i].code)
+			return 1;
+
+	for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++)
+		if (kbd->active_chords[i].active)
+			return 1;
+
+	return kbd->active_macro || kbd->pending_key.code || kbd->chord.state != CHORD_INACTIVE;
+}
+
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
-		memcpy(&kbd->config, kbd->original_config, sizeof(struct config));
+		const struct config *original = kbd->original_config;
+
+		memcpy(kbd->config.layers, original->layers, sizeof original->layers);
+
+		/*
+		 * Macros, commands and nested actions of runtime bindings must outlive
+		 * the keys which have been pressed under them.
+		 */
+		if (!has_active_bindings(kbd)) {
+			kbd->config.nr_macros = original->nr_macros;
+			kbd->config.nr_commands = original->nr_commands;
+			kbd->config.nr_descriptors = original->nr_descriptors;
+		}
+
 		return 0;
 	} else {
 		return config_add_entry(&kbd->config, exp);
-- 
2.43.0


From 7e7d380b48bee3e106d7b9ee588868b98700b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 57/79] fix: judge the panic sequence by the keys actually held
 on each device

---
 src/daemon.c |  1 -
 src/device.c |  3 +++
 src/evloop.c | 28 +++++++++++++++-------------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 28c333f..3dc79ff 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -525,7 +525,6 @@ static int event_handler(struct event *ev)
 			case DEV_KEY:
 				dbg("input %s %s", KEY_NAME(ev->devev->code), ev->devev->pressed ? "down" : "up");
 
-				ev->dev->keystate[ev->devev->code] = ev->devev->pressed;
 				process_key(kbd, ev->devev->code, ev->devev->pressed, ev->timestamp);
 				break;
 			case DEV_MOUSE_MOVE:
diff --git a/src/device.c b/src/device.c
index 33a354f..b988cd7 100644
--- a/src/device.c
+++ b/src/device.c
@@ -369,6 +369,9 @@ int device_grab(struct device *dev)
 	while (read(dev->fd, &ev, sizeof(ev)) > 0) {
 	}
 
+	/* No keys are down at this point. */
+	memset(dev->keystate, 0, sizeof(dev->keystate));
+
 	dev->grabbed = 1;
 	return 0;
 }
diff --git a/src/evloop.c b/src/evloop.c
index 8cd3cee..570213b 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -8,19 +8,21 @@ static size_t nr_aux_fds = 0;
 struct device device_table[MAX_DEVICES];
 size_t device_table_sz;
 
-static void panic_check(uint8_t code, uint8_t pressed)
+static void panic_check(struct device *dev, uint8_t code, uint8_t pressed)
 {
-	static uint8_t enter, backspace, escape;
-	switch (code) {
-	case KEYD_ENTER:
-		enter = pressed;
-		break;
-	case KEYD_BACKSPACE:
-		backspace = pressed;
-		break;
-	case KEYD_ESC:
-		escape = pressed;
-		break;
+	size_t i;
+	uint8_t enter = 0, backspace = 0, escape = 0;
+
+	dev->keystate[code] = pressed;
+
+	for (i = 0; i < device_table_sz; i++) {
+		/* Removed in the current iteration. */
+		if (device_table[i].fd == -1)
+			continue;
+
+		enter |= device_table[i].keystate[KEYD_ENTER];
+		backspace |= device_table[i].keystate[KEYD_BACKSPACE];
+		escape |= device_table[i].keystate[KEYD_ESC];
 	}
 
 	if (backspace && enter && escape)
@@ -114,7 +116,7 @@ int evloop(int (*event_handler) (struct event *ev))
 					} else {
 						//Handle device event
 						if (devev->type == DEV_KEY)
-							panic_check(devev->code, devev->pressed);
+							panic_check(&device_table[i], devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 95b475b77c485a779e257c34a1a64ed5ff9ded0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 58/79] fix: drop listeners which cannot be told the current
 layout

---
 src/daemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index 3dc79ff..d54b63c 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -111,7 +111,8 @@ static void add_listener(int con)
 				}
 			}
 
-		dprintf(con, "/%s\n", layout->name);
+		if (dprintf(con, "/%s\n", layout->name) < 0)
+			goto fail;
 
 		for (i = 1; i < config->nr_layers; i++) {
 			if (active_kbd->layer_state[i].active) {
-- 
2.43.0


From b11d09149d28b5627bb73de00a86712b365b01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 59/79] fix: keep the log formatting buffer per thread (the
 device scan logs from several)

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index f326631..f686d6c 100644
--- a/src/log.c
+++ b/src/log.c
@@ -15,11 +15,11 @@ static const char *colorize(const char *s)
 {
 	int i;
 
-	static char buf[1024];
+	static __thread char buf[1024];
 	size_t n  = 0;
 	int inside_escape = 0;
 
-	for (i = 0; s[i] != 0 && n < sizeof(buf); i++) {
+	for (i = 0; s[i] != 0 && n < sizeof(buf)-1; i++) {
 		if (s[i+1] == '{') {
 			int escape_num = 0;
 
-- 
2.43.0


From d3bdb0bca022defa2a25bf722a7380bf6f0ff99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 60/79] fix: usb-gadget: do not send an uninitialised byte in
 reports

---
 src/vkbd/usb-gadget.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 6b9853b..f5dd101 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -42,7 +42,7 @@ static int create_virtual_keyboard(void)
 static void send_hid_report(const struct vkbd *vkbd)
 {
 
-	struct hid_report report;
+	struct hid_report report = {0};
 
 	for (int i = 0; i < 6; i++)
 		report.hid_code[i] = keys[i];
-- 
2.43.0


From 9e235762297db481717ec3e813cbc4950e76fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 61/79] fix: usb-gadget: do not lose reports the host is too
 slow for

---
 src/vkbd/usb-gadget.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index f5dd101..fb417a5 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -8,7 +8,9 @@
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 #include "../keys.h"
 #include "usb-gadget.h"
@@ -49,7 +51,13 @@ static void send_hid_report(const struct vkbd *vkbd)
 
 	report.hid_mods = mods;
 
-	write(vkbd->fd, &report, sizeof(report));
+	/* The host may not have fetched the previous report yet. */
+	while (write(vkbd->fd, &report, sizeof(report)) < 0 && errno == EAGAIN) {
+		struct pollfd pfd = { .fd = vkbd->fd, .events = POLLOUT };
+
+		if (poll(&pfd, 1, 100) <= 0)
+			break;
+	}
 
 }
 
-- 
2.43.0


From 715b552795710ba0d4beefe1d2b1f6b947d237df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 62/79] fix: usb-gadget: report a key held beyond the sixth
 once there is room

---
 src/vkbd/usb-gadget.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index fb417a5..74110b4 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -17,7 +17,8 @@
 
 static uint8_t mods = 0;
 
-static uint8_t keys[6] = {0};
+/* Keys which are down; the first six are reported. */
+static uint8_t keys[256] = {0};
 
 struct vkbd {
 	int fd;
@@ -46,8 +47,11 @@ static void send_hid_report(const struct vkbd *vkbd)
 
 	struct hid_report report = {0};
 
-	for (int i = 0; i < 6; i++)
-		report.hid_code[i] = keys[i];
+	int n = 0;
+
+	for (size_t i = 0; i < sizeof(keys) && n < 6; i++)
+		if (keys[i])
+			report.hid_code[n++] = keys[i];
 
 	report.hid_mods = mods;
 
@@ -113,11 +117,11 @@ static int update_modifier_state(int code, int state)
 
 static void update_key_state(uint16_t code, int state)
 {
-	int i;
+	size_t i;
 	int set = 0;
 	uint8_t hid_code = hid_table[code];
 
-	for (i = 0; i < 6; i++) {
+	for (i = 0; i < sizeof(keys); i++) {
 		if (keys[i] == hid_code) {
 			set = 1;
 			if (state == 0)
@@ -125,7 +129,7 @@ static void update_key_state(uint16_t code, int state)
 		}
 	}
 	if (state && !set) {
-		for (i = 0; i < 6; i++) {
+		for (i = 0; i < sizeof(keys); i++) {
 			if (keys[i] == 0) {
 				keys[i] = hid_code;
 				break;
-- 
2.43.0


From 22a6c6b2906051130d0d5531e6ff0159d2961c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 63/79] fix: application-mapper: keep the current bindings
 while app.conf is missing or unreadable

---
 scripts/keyd-application-mapper | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 91c4c93..f438779 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -537,12 +537,16 @@ def on_window_change(cls, title):
     cls = normalize_class(cls)
     title = normalize_title(title)
 
-    mtime = os.path.getmtime(CONFIG_PATH)
-
-    if mtime != last_mtime:
-        print(CONFIG_PATH + ': Updated, reloading config...')
-        config = parse_config(CONFIG_PATH)
-        last_mtime = mtime
+    # The file may be temporarily missing (or incomplete) while it is being saved.
+    try:
+        mtime = os.path.getmtime(CONFIG_PATH)
+
+        if mtime != last_mtime:
+            print(CONFIG_PATH + ': Updated, reloading config...')
+            config = parse_config(CONFIG_PATH)
+            last_mtime = mtime
+    except (OSError, UnicodeDecodeError) as e:
+        print(f'{CONFIG_PATH}: Could not reload config: {e}')
 
     if args.verbose:
         print(f'Active window: {cls}|{title}')
-- 
2.43.0


From 156e29977eaaf83763e1624e049637ab962a810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 64/79] fix: application-mapper: do not crash on bindings which
 precede the first section

---
 scripts/keyd-application-mapper | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index f438779..d1ccd34 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -62,6 +62,7 @@ def run_or_die(cmd, msg=''):
 
 def parse_config(path):
     config = []
+    bindings = []
 
     for line in open(path):
         line = line.strip()
-- 
2.43.0


From 8cb9a0c2db22b678e4c135704a24ed3e9cfb8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 65/79] fix: application-mapper: do not miss a config change
 made during startup

---
 scripts/keyd-application-mapper | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index d1ccd34..bbfe8f5 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -512,6 +512,7 @@ args = opt.parse_args()
 if not os.path.exists(CONFIG_PATH):
     die('could not find app.conf, make sure it is in ~/.config/keyd/app.conf')
 
+last_mtime = os.path.getmtime(CONFIG_PATH)
 config = parse_config(CONFIG_PATH)
 lock()
 
@@ -530,7 +531,6 @@ def normalize_class(s):
 def normalize_title(s):
     return re.sub(r'[\W_]+', '-', s).strip('-').lower()
 
-last_mtime = os.path.getmtime(CONFIG_PATH)
 def on_window_change(cls, title):
     global last_mtime
     global config
-- 
2.43.0


From 6754a9772cbcf9c61e532cc72ac6b71eee433f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 66/79] fix: application-mapper: gnome: do not lose lines which
 arrive together

---
 scripts/keyd-application-mapper | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index bbfe8f5..c678e49 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -444,7 +444,10 @@ NOTE:
             exit(0)
 
     def run(self):
-        fh = open(self.fifo_path)
+        # Unbuffered, so that select() sees every line which has not been
+        # consumed, and writable so that the pipe never reaches EOF (gnome
+        # may close and reopen its end at any time).
+        fh = open(self.fifo_path, 'r+b', buffering=0)
         last_cls = ''
         last_title = ''
 
@@ -454,7 +457,7 @@ NOTE:
                 continue
 
             try:
-                (cls, title) = line.strip('\n').split('\t')
+                (cls, title) = line.decode('utf8', 'replace').strip('\n').split('\t')
                 last_cls = cls
                 last_title = title
             except:
-- 
2.43.0


From 6469ad3d582b8ba3a81b4e4c1c4bcc56b8eaaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 67/79] fix: application-mapper: wayland: read entire messages

---
 scripts/keyd-application-mapper | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index c678e49..a93b3bb 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -195,13 +195,25 @@ class Wayland():
         self.sock.sendall(struct.pack(b'II', object_id, opcode))
         self.sock.sendall(payload)
 
+    # recv() may return less than what was asked for.
+    def recv(self, n):
+        data = b''
+        while len(data) < n:
+            chunk = self.sock.recv(n - len(data))
+            if not chunk:
+                raise EOFError('wayland connection closed')
+
+            data += chunk
+
+        return data
+
     def recv_msg(self):
-        (object_id, evcode) = struct.unpack('II', self.sock.recv(8))
+        (object_id, evcode) = struct.unpack('II', self.recv(8))
 
         size = evcode >> 16
         evcode = evcode & 0xFFFF
 
-        data = self.sock.recv(size-8)
+        data = self.recv(size-8)
 
         return (object_id, evcode, data)
 
-- 
2.43.0


From 37b7a58dc24b544e94f2c5fe483096172a59421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 68/79] fix: application-mapper: wlroots: tell windows with the
 same class and title apart

---
 scripts/keyd-application-mapper | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index a93b3bb..f80a3d6 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -271,7 +271,7 @@ class Wlroots():
                 windows[obj]['appid'] = self.wl.read_string(payload)
             elif event == 4:
                 # zwlr_foreign_toplevel_handle_v1::state event
-                if active_window == windows[obj]:
+                if active_window is windows[obj]:
                     active_window = None
                 window_is_active = False
 
@@ -286,13 +286,13 @@ class Wlroots():
 
                 if window_is_active:
                     active_window = windows[obj]
-            elif event == 5 and active_window == windows[obj]:
+            elif event == 5 and active_window is windows[obj]:
                 # zwlr_foreign_toplevel_handle_v1::done event
                 self.on_window_change(active_window['appid'], active_window['title'])
             elif event == 6:
                 # zwlr_foreign_toplevel_handle_v1::closed event
                 closed_window = windows.pop(obj)
-                if closed_window == active_window:
+                if closed_window is active_window:
                     active_window = None
 
 class Cosmic():
-- 
2.43.0


From c8c6659e3e905f10bc3bbfbeb0398e888e38e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 69/79] fix: application-mapper: cosmic: recognize active
 windows with additional states and changing titles

---
 scripts/keyd-application-mapper | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index f80a3d6..242ac00 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -305,17 +305,39 @@ class Cosmic():
 
     def run(self):
         windows = {}
+        active_window = None
+
         while True:
             (obj, event, payload) = self.wl.recv_msg()
+            if obj == 4 and event == 0:
+                # zcosmic_toplevel_info_v1::toplevel event
+                windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
+                continue
+
             if obj not in windows:
-                windows[obj]={}
+                continue
 
-            if event == 2:
+            if event == 0:
+                # zcosmic_toplevel_handle_v1::closed event
+                closed_window = windows.pop(obj)
+                if closed_window is active_window:
+                    active_window = None
+            elif event == 1 and active_window is windows[obj]:
+                # zcosmic_toplevel_handle_v1::done event
+                self.on_window_change(active_window['appid'], active_window['title'])
+            elif event == 2:
                 windows[obj]['title'] = self.wl.read_string(payload)
-            if event == 3:
+            elif event == 3:
                 windows[obj]['appid'] = self.wl.read_string(payload)
-            if event == 8  and payload[0] > 0 and payload[4] == 2:
-                self.on_window_change(windows[obj].get('appid', ''), windows[obj].get('title', ''))
+            elif event == 8:
+                # zcosmic_toplevel_handle_v1::state event
+                array_size = struct.unpack('I', payload[0:4])[0]
+                states = struct.unpack(f'{array_size//4}I', payload[4:4+array_size])
+
+                if 2 in states:
+                    active_window = windows[obj]
+                elif active_window is windows[obj]:
+                    active_window = None
 
 class XMonitor():
     def __init__(self, on_window_change):
-- 
2.43.0


From 1ae8d077a39ffcba6a8d5aab42d9192905dc128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 70/79] fix: application-mapper: wayland: reload on USR1
 instead of dying

---
 scripts/keyd-application-mapper | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 242ac00..8fde307 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -241,6 +241,11 @@ class Wayland():
                 raise Exception(f"Could not find interface {name}")
 
 
+    # Yields None whenever a reload is requested.
+    def messages(self):
+        return new_interruptible_generator(self.sock.fileno(), self.recv_msg)
+
+
 class Wlroots():
     def __init__(self, on_window_change):
         self.wl = Wayland('zwlr_foreign_toplevel_manager_v1')
@@ -253,8 +258,13 @@ class Wlroots():
         windows = {}
         active_window = None
 
-        while True:
-            (obj, event, payload) = self.wl.recv_msg()
+        for msg in self.wl.messages():
+            if msg == None:
+                if active_window:
+                    self.on_window_change(active_window['appid'], active_window['title'])
+                continue
+
+            (obj, event, payload) = msg
             if obj == 4 and event == 0:
                 # zwlr_foreign_toplevel_manager_v1::toplevel event
                 windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
@@ -307,8 +317,13 @@ class Cosmic():
         windows = {}
         active_window = None
 
-        while True:
-            (obj, event, payload) = self.wl.recv_msg()
+        for msg in self.wl.messages():
+            if msg == None:
+                if active_window:
+                    self.on_window_change(active_window['appid'], active_window['title'])
+                continue
+
+            (obj, event, payload) = msg
             if obj == 4 and event == 0:
                 # zcosmic_toplevel_info_v1::toplevel event
                 windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
-- 
2.43.0


From 4592ad52f2d764314d516f48f37aff55163dcb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 71/79] fix: gnome-extension: keep tabs and newlines in titles
 from breaking the message format

---
 data/gnome-extension-45/extension.js | 13 ++++++++++---
 data/gnome-extension/extension.js    | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 0d1968b..9685511 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -20,10 +20,17 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+// Tabs and newlines separate fields and messages.
+function sanitize(s) {
+	return `${s}`.replace(/[\t\n]/g, ' ');
+}
+
+function send(cls, title) {
 	if (!pipe)
 		return;
 
+	const msg = `${sanitize(cls)}	${sanitize(title)}\n`;
+
 	try {
 		pipe.write(msg, null);
 	} catch {
@@ -45,12 +52,12 @@ export default class KeydExtension extends Extension {
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
 
-			send(`${cls}	${title}\n`);
+			send(cls, title);
 		});
 
 		Main.layoutManager.connectObject(
 			'system-modal-opened', () => {
-				send(`system-modal	${global.stage.get_title()}\n`);
+				send('system-modal', global.stage.get_title());
 			},
 			this
 		);
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index a11f4b6..871f51f 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -19,10 +19,17 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+// Tabs and newlines separate fields and messages.
+function sanitize(s) {
+	return `${s}`.replace(/[\t\n]/g, ' ');
+}
+
+function send(cls, title) {
 	if (!pipe)
 		return;
 
+	const msg = `${sanitize(cls)}	${sanitize(title)}\n`;
+
 	try {
 		pipe.write(msg, null);
 	} catch {
@@ -45,12 +52,12 @@ function init() {
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
 
-				send(`${cls}	${title}\n`);
+				send(cls, title);
 			});
 
 			Main.layoutManager.connectObject(
 				'system-modal-opened', () => {
-					send(`system-modal	${global.stage.get_title()}\n`);
+					send('system-modal', global.stage.get_title());
 				},
 				this
 			);
-- 
2.43.0


From 4d67d91f71231c5ee058d9437b9bc887a0d23e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 72/79] fix: stop reading the input of 'keyd input' and 'keyd
 do' on a read error

---
 src/keyd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..3dca2dd 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -112,7 +112,7 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		}
 	} else {
 		while (1) {
-			size_t n;
+			ssize_t n;
 
 			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
 				break;
-- 
2.43.0


From 379fc0cbfd038a29554f1980a72de420e2b3491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 73/79] fix: report a binding that is too long for a request
 instead of aborting

---
 src/keyd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 3dca2dd..73fa6f6 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -10,7 +10,8 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 {
 	struct ipc_message msg;
 
-	assert(sz <= sizeof(msg.data));
+	if (sz > sizeof(msg.data))
+		die("maximum input length exceeded");
 
 	msg.type = type;
 	msg.sz = sz;
-- 
2.43.0


From 661d797f503423b3cb130a8055ce40f46d808383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 74/79] fix: do not take an empty argument for the input
 command

---
 src/keyd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyd.c b/src/keyd.c
index 73fa6f6..aa7180b 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -252,9 +252,9 @@ int main(int argc, char *argv[])
 
 	if (argc > 1) {
 		for (i = 0; i < ARRAY_SIZE(commands); i++)
-			if (!strcmp(commands[i].name, argv[1]) ||
+			if (argv[1][0] && (!strcmp(commands[i].name, argv[1]) ||
 				!strcmp(commands[i].flag, argv[1]) ||
-				!strcmp(commands[i].long_flag, argv[1])) {
+				!strcmp(commands[i].long_flag, argv[1]))) {
 				return commands[i].fn(argc - 1, argv + 1);
 			}
 
-- 
2.43.0


From 530a9b3714caf402dbb9abe45c8ef950fde420dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 75/79] fix: keep the chord being decided from being changed by
 bind

---
 src/keyboard.c | 5 +++++
 src/keyboard.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 7021dba..c985e12 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -388,6 +388,11 @@ static int check_chord_match(struct keyboard *kbd, const struct chord **chord, i
 		}
 	}
 
+	if (full_match) {
+		kbd->chord.match_chord = **chord;
+		*chord = &kbd->chord.match_chord;
+	}
+
 	if (full_match)
 		return partial_match ? 3 : 2;
 	else if (partial_match)
diff --git a/src/keyboard.h b/src/keyboard.h
index 5acad11..3f00075 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -81,6 +81,7 @@ struct keyboard {
 		size_t queue_sz;
 
 		const struct chord *match;
+		struct chord match_chord; /* a copy, bind may change the layer's */
 		int match_layer;
 
 		uint8_t start_code;
-- 
2.43.0


From ba14d3b9b093bce25c2e47cfa7819c14d7abbc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 76/79] fix: terminate layer changes of the longest layer names
 with a newline

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index d54b63c..5869126 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -138,7 +138,7 @@ fail:
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From e87449136bc38a6465f7c568bb0e0142854bb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 77/79] fix: examples/macos.conf: bind leftmeta to the alt
 layer

alt is neither a key nor an action, so the line was rejected and the
promised swap did not take place.
---
 examples/macos.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/macos.conf b/examples/macos.conf
index ce25722..7f1f97d 100644
--- a/examples/macos.conf
+++ b/examples/macos.conf
@@ -19,7 +19,7 @@
 leftalt = layer(meta_mac)
 
 # Swap meta/alt
-leftmeta = alt
+leftmeta = layer(alt)
 
 
 # meta_mac modifier layer; inherits from 'Ctrl' modifier layer
-- 
2.43.0


From 51d51d1594633e3656b1e9076869f5f6d5dbc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 78/79] Revert "fix: examples/macos.conf: bind leftmeta to the
 alt layer"

This reverts commit e87449136bc38a6465f7c568bb0e0142854bb5a9.
---
 examples/macos.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/macos.conf b/examples/macos.conf
index 7f1f97d..ce25722 100644
--- a/examples/macos.conf
+++ b/examples/macos.conf
@@ -19,7 +19,7 @@
 leftalt = layer(meta_mac)
 
 # Swap meta/alt
-leftmeta = layer(alt)
+leftmeta = alt
 
 
 # meta_mac modifier layer; inherits from 'Ctrl' modifier layer
-- 
2.43.0


From a3944a59cd0de22d81016a7a74c16ff88b7a428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 79/79] fix: restrict the control socket before listening on it

With a permissive umask anyone could connect to the socket (and bind
commands, which run as root) between listen() and chmod().
---
 src/ipc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ipc.c b/src/ipc.c
index 53d9b53..33e6834 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -76,12 +76,13 @@ int ipc_create_server()
 		exit(-1);
 	}
 
+	/* Must precede listen(), a permissive umask would admit anyone until then. */
+	chmod(SOCKET_PATH, 0660);
+
 	if (listen(sd, 20) < 0) {
 		perror("listen");
 		exit(-1);
 	}
 
-	chmod(SOCKET_PATH, 0660);
-
 	return sd;
 }
-- 
2.43.0

