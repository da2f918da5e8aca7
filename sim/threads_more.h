/* C17, continued: the rest of every module's interface. */
static bool more_alpha(int32_t c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c > 127; }
static void Ls(Task *t, struct HarbolString *o) { L(t, o->len); Lb(t, o->cstr ? o->cstr : "", o->len); harbol_string_clear(o); }
static void run_more(Task *t, const Step *s) {
	int64_t a = s->a[0], b = s->a[1], c = s->a[2]; char nm[32]; uint64_t v = mix64((uint64_t)c % 24 + 5); char txt[200]; size_t tn = s->bloblen < 150 ? s->bloblen : 150; memcpy(txt, s->blob ? (char *)s->blob : "", tn); txt[tn] = 0; bool ok = false;
	switch (s->op) {
	case O_MAP2: { struct HarbolMap *m = &t->map; char k[16]; snprintf(k, sizeof k, "key%" PRId64, b % 24); size_t kl = strlen(k) + 1, n = 1 + umod(c, 8);
		switch (umod(a, 9)) {
		case 0: L(t, harbol_map_key_set(m, k, kl, &v, n)); break;
		case 1: L(t, harbol_map_idx_set(m, umod(b, m->len + 1), &v, n)); break;
		case 2: L(t, harbol_map_idx_rm(m, umod(b, m->len + 1))); break;
		case 3: L(t, harbol_map_idx_val(m, &v, n)); break;
		case 4: { size_t q = 0; void *w = harbol_map_key_val(m, &v, n, &q); if (w) Lb(t, w, q); else L(t, 77); break; }
		case 5: { struct HarbolMap *w = harbol_map_new(umod(b, 20)); L(t, w != NULL); if (w) { L(t, harbol_map_insert(w, k, kl, &v, n)); L(t, harbol_map_key_set(w, k, kl, txt, tn + 1)); L(t, harbol_map_get_entry_index(w, k, kl)); harbol_map_free(&w); } break; }
		case 6: { struct HarbolMap w = harbol_map_make(umod(b, 20), &ok); L(t, ok); if (ok) { L(t, harbol_map_insert(&w, txt, tn + 1, &v, 8)); L(t, harbol_map_has_key(&w, txt, tn + 1)); harbol_map_clear(&w); } break; }
		default: { size_t i = umod(b, m->len + 1); void *g = harbol_map_idx_get(m, i); if (g) Lb(t, g, m->datalens[i]); L(t, harbol_map_get_entry_index(m, k, kl)); }
		} break; }
	case O_STR2: { struct HarbolString *q = &t->str, o = {0}; if (q->len > 3000) { harbol_string_clear(q); break; }
		switch (umod(a, 16)) {
		case 0: L(t, harbol_string_add_char(q, (char)('a' + umod(b, 26)))); break;
		case 1: L(t, harbol_string_add_char_rep(q, 'r', umod(b, 40))); break;
		case 2: o = harbol_string_make(txt, &ok); L(t, ok); if (ok) { L(t, harbol_string_add_str(q, &o)); L(t, harbol_string_cmpstr(q, &o) == 0); } break;
		case 3: L(t, harbol_string_copy_cstr(&o, txt)); L(t, harbol_string_copy_str(&o, q)); L(t, harbol_string_add_str(&o, &o)); break;
		case 4: L(t, harbol_string_cmpcstr(q, txt) == 0); break;
		case 5: L(t, harbol_string_replace_char(q, 'a', 'z')); break;
		case 6: L(t, harbol_string_count_char(q, 'z')); L(t, harbol_string_find_char(q, 'r')); break;
		case 7: L(t, harbol_string_lower(q)); break;
		case 8: L(t, harbol_string_rm_char(q, 'r')); break;
		case 9: { size_t lo = umod(b, q->len + 1), hi = umod(c, q->len + 1); if (lo <= hi) L(t, harbol_string_replace_range(q, lo, hi, txt)); break; }
		case 10: { struct HarbolString *w = harbol_string_new(txt); L(t, w != NULL); if (w) { L(t, harbol_string_replace_cstr(w, "e", "", SIZE_MAX)); Lb(t, w->cstr ? w->cstr : "", w->len); harbol_string_free(&w); } break; }
		case 11: L(t, (uint64_t)harbol_string_format(q, false, "%s%c%zu", txt, 'q', (size_t)umod(b, 900))); break;
		case 12: snprintf(nm, sizeof nm, "t%d.txt", t->id); sim_file_put(nm, txt, tn); L(t, harbol_string_read_file(&o, nm)); break;
		case 13: if (tn) L(t, harbol_string_replace_cstr(q, txt, "<>", umod(b, 5))); break;
		case 14: L(t, harbol_string_replace_cstr(q, "r", "long one", umod(b, 5))); break;
		default: L(t, harbol_string_empty(q)); L(t, harbol_string_len(q));
		}
		Ls(t, &o); Lb(t, q->cstr ? q->cstr : "", q->len); break; }
	case O_ARRAY2: { struct HarbolArray *q = &t->arr, w; uint32_t e = (uint32_t)v, g = 0; void *r;
		switch (umod(a, 14)) {
		case 0: L(t, harbol_array_append(q, &e, 4)); break;
		case 1: r = harbol_array_pop(q, 4); if (r) Lb(t, r, 4); break;
		case 2: L(t, harbol_array_pop_ex(q, &g, 4)); L(t, g); break;
		case 3: L(t, harbol_array_peek_ex(q, &g, 4)); L(t, g); r = harbol_array_peek(q, 4); if (r) Lb(t, r, 4); break;
		case 4: L(t, harbol_array_set(q, umod(b, q->len + 1), &e, 4)); break;
		case 5: L(t, harbol_array_swap(q, 4)); break;
		case 6: L(t, harbol_array_shift_up(q, umod(b, q->len + 1), 4, umod(c, 4))); break;
		case 7: L(t, harbol_array_item_count(q, &e, 4)); L(t, harbol_array_index_of(q, &e, 4, umod(b, 4))); break;
		case 8: L(t, harbol_array_del_by_val(q, &e, 4)); break;
		case 9: case 10: w = harbol_array_make(4, umod(b, 30), &ok); L(t, ok); if (ok) { L(t, harbol_array_copy(&w, q, 4)); L(t, harbol_array_add(&w, q, 4)); L(t, harbol_array_insert(&w, &e, 4)); Lb(t, w.table, w.len * 4); harbol_array_clear(&w); } break;
		case 11: { struct HarbolArray *z = harbol_array_new(4, umod(b, 20)); L(t, z != NULL); if (z) { L(t, harbol_array_fill(z, &e, 4)); Lb(t, z->table, z->len * 4); harbol_array_cleanup(&z); } break; }
		case 12: if (q->len < 600) { L(t, harbol_array_resize(q, 4, umod(b, 90))); L(t, q->cap); } break;
		default: L(t, harbol_array_get_ex(q, umod(b, q->len + 1), &g, 4)); L(t, g);
		}
		Lb(t, q->table ? (void *)q->table : "", q->len * 4); break; }
	case O_DEQUE2: { struct HarbolDeque *q = &t->dq; void *g;
		switch (umod(a, 5)) {
		case 0: if (harbol_deque_count(q)) { g = harbol_deque_get_front(q); Lb(t, g, 8); g = harbol_deque_get_back(q); Lb(t, g, 8); } break;
		case 1: for (size_t n = harbol_deque_head(q), k = harbol_deque_count(q); k; k--, n = harbol_deque_next(q, n)) { g = harbol_deque_get_data(q, n); L(t, g != NULL); if (g) Lb(t, g, 8); } break;
		case 2: for (size_t n = harbol_deque_tail(q), k = harbol_deque_count(q); k; k--, n = harbol_deque_prev(q, n)) { g = harbol_deque_get_data(q, n); L(t, g != NULL); if (g) Lb(t, g, 8); } break;
		case 3: harbol_deque_reset(q); break;
		default: { struct HarbolDeque *w = harbol_deque_new(1 + umod(b, 6)); L(t, w != NULL); if (w) { for (size_t k = 0; k < 1 + umod(c, 20); k++) L(t, (k % 3 ? harbol_deque_append(w, &v, 8) : harbol_deque_prepend(w, &v, 8)) != SIZE_MAX); L(t, harbol_deque_count(w)); harbol_deque_free(&w); } }
		}
		L(t, harbol_deque_empty(q)); break; }
	case O_TREE2: if (t->tree) { struct HarbolTree *q = t->tree, *w;
		switch (umod(a, 5)) {
		case 0: w = harbol_tree_new(&v, 1 + umod(c, 8)); L(t, w != NULL); if (w) { L(t, harbol_tree_insert_val(w, txt, tn + 1)); ok = q->kids.len < 20 && harbol_tree_insert_node(q, &w); L(t, ok); if (!ok) harbol_tree_free(&w); } break;
		case 1: L(t, harbol_tree_rm_val(q, &v, 1 + umod(c, 8))); break;
		case 2: w = harbol_tree_get_node_by_val(q, &v, 1 + umod(c, 8)); L(t, w != NULL); if (w) { L(t, w->len); if (w->kids.len < 9) L(t, harbol_tree_insert_val(w, &v, 8)); } break;
		case 3: w = harbol_tree_get_node_by_index(q, umod(b, q->kids.len + 1)); L(t, w != NULL); if (w) L(t, harbol_tree_rm_node(q, &w)); break;
		default: { struct HarbolTree z; memset(&z, 0, sizeof z); ok = harbol_tree_init(&z, txt, tn + 1); L(t, ok); if (ok) { Lb(t, harbol_tree_get(&z), harbol_tree_len(&z)); harbol_tree_clear(&z); } }
		}
		L(t, q->kids.len); } break;
	case O_BYTES2: { struct HarbolByteBuf *q = &t->bb; if (q->len > 3000) { harbol_bytebuffer_clear(q); break; }
		switch (umod(a, 12)) {
		case 0: L(t, harbol_bytebuffer_insert_byte(q, (uint8_t)v)); break;
		case 1: L(t, harbol_bytebuffer_insert_int16(q, (uint16_t)v)); break;
		case 2: L(t, harbol_bytebuffer_insert_int64(q, v)); break;
		case 3: L(t, harbol_bytebuffer_insert_ptr(q, (uintptr_t)v)); break;
		case 4: L(t, harbol_bytebuffer_insert_float32(q, (float)b / 3)); break;
		case 5: L(t, harbol_bytebuffer_insert_float64(q, (double)b / 3)); break;
		case 6: { size_t n0 = q->len; bool z = harbol_bytebuffer_insert_floatmax(q, (floatmax_t)b / 3); L(t, z); if (z) { floatmax_t f; L(t, q->len - n0 == sizeof f); memcpy(&f, q->table + n0, sizeof f); Lf(t, f); harbol_bytebuffer_del(q, n0, sizeof f); } break; }
		case 7: L(t, harbol_bytebuffer_insert_obj(q, txt, tn)); break;
		case 8: case 9: { struct HarbolByteBuf *w = harbol_bytebuffer_new(); L(t, w != NULL); if (w) { L(t, harbol_bytebuffer_insert_cstr(w, txt)); L(t, harbol_bytebuffer_append(q, w)); L(t, harbol_bytebuffer_append(w, w)); Lb(t, w->table ? (void *)w->table : "", w->len); harbol_bytebuffer_free(&w); } break; }
		case 10: { SimFile *f; FILE *fp = sim_sink(&f); L(t, harbol_bytebuffer_to_file(q, fp)); fflush(fp); Lb(t, f->d ? (void *)f->d : "", f->len); sim_fclose(fp); sim_sink_free(f); break; }
		default: snprintf(nm, sizeof nm, "t%d.bin", t->id); sim_file_put(nm, txt, tn); L(t, harbol_bytebuffer_insert_from_filename(q, nm));
		}
		Lb(t, q->table ? (void *)q->table : "", q->len); break; }
	case O_VARIANT: { struct HarbolVariant *q = &t->va, *w;
		switch (umod(a, 3)) {
		case 0: if (q->data == NULL) { *q = harbol_variant_make(&v, 1 + umod(c, 8), (int32_t)b, &ok); L(t, ok); } else { harbol_variant_clear(q); memset(q, 0, sizeof *q); } break;
		case 1: if (q->data) L(t, harbol_variant_set(q, txt, tn + 1)); break;
		default: w = harbol_variant_new(txt, tn + 1, (int32_t)c); L(t, w != NULL); if (w) { L(t, harbol_variant_set(w, &v, 8)); L(t, (uint64_t)harbol_variant_tag(w)); Lb(t, harbol_variant_data(w), harbol_variant_size(w)); harbol_variant_free(&w); }
		}
		if (q->data) { Lb(t, harbol_variant_data(q), harbol_variant_size(q)); L(t, (uint64_t)harbol_variant_tag(q)); } break; }
	case O_LEX2: { struct HarbolString o = {0}; char const *e = NULL, *n; uint32_t ln = 0; size_t l2 = 0; char w[64];
		static const char *const ds[] = { "// one line\nnext", "/* two\nlines */ after", "/* open", "'''multi\n'' line''' rest", "   \n\t x", "\"lit \\\" eral\" z", "caf\xC3\xA9_x 9", "a\r\nb\tc\rd" }; n = ds[umod(b, 8)];
		switch (umod(a, 16)) {
		case 0: L(t, lex_single_line_comment(n, &e, &o, &ln)); break;
		case 1: L(t, lex_multi_line_comment(n, &e, "*/", 2, &o, &ln)); break;
		case 2: L(t, lex_multiquote_string(n, &e, "'''", 3, &o, &l2)); break;
		case 3: e = skip_chars(n, is_whitespace, &ln); break;
		case 4: e = skip_chars_until_newline(n, is_whitespace); break;
		case 5: n = ds[5]; e = skip_string_literal(n, '\\'); break;
		case 6: e = skip_single_line_comment(n, &ln); break;
		case 7: e = skip_multi_line_comment(n, "*/", 2, &ln); break;
		case 8: strcpy(w, n); e = clear_multi_line_comment(w, "*/", 2); Lb(t, w, strlen(n)); n = w; break;
		case 9: strcpy(w, n); e = clear_single_line_comment(w); Lb(t, w, strlen(n)); n = w; break;
		case 10: n = ds[3]; e = skip_multiquote_string(n, "'''", 3, '\\'); break;
		case 11: L(t, lex_until_false(n, &e, &o, more_alpha)); break;
		case 12: n = ds[6]; L(t, lex_until_false_utf8(n, &e, &o, more_alpha)); break;
		case 13: L(t, harbol_string_copy_cstr(&o, ds[7])); L(t, lex_fix_newlines(&o, b & 1)); break;
		case 14: { static const char *const ns[] = { "123", "0x1f", "0b1010", "017", "0o17", "-5" }; char *z = NULL; if (harbol_string_copy_cstr(&o, ns[umod(c, 6)])) { L(t, (uint64_t)lex_c_string_to_int(&o, &z)); L(t, (uint64_t)lex_go_string_to_int(&o, &z)); L(t, lex_c_string_to_uint(&o, &z)); L(t, lex_go_string_to_uint(&o, &z)); Lf(t, lex_string_to_float(&o)); } break; }
		default: { static const char *const ss[] = { "\"go \\n \\x41 \\u00e9\" t", "`raw \\n`", "\"\\U0001F600\" x", "\"op" }; n = ss[umod(c, 4)]; L(t, lex_go_style_str(n, &e, &o)); }
		}
		L(t, ln); L(t, l2); L(t, e ? (uint64_t)(e - n) : 999); Ls(t, &o); break; }
	case O_RUNES: { static const char *const us[] = { "h\xC3\xA9llo \xE2\x98\x9D", "\xD0\x96\xD0\xB8", "plain", "\xF0\x9F\x98\x81\xE2\x82\xAC" }; const char *u = us[umod(b, 4)]; size_t n = strlen(u), k = 0; int32_t ru = 0; struct HarbolString o = {0};
		switch (umod(a, 7)) {
		case 0: for (size_t i = 0; i < n && k < 20; k++) { int32_t q = utf8_to_rune_iter(u, n, &i); L(t, (uint64_t)q); if (q <= 0) break; } break;
		case 1: L(t, read_utf8(u, n, &ru)); L(t, (uint64_t)ru); L(t, (uint64_t)read_utf8_rune(u, n)); break;
		case 2: { int32_t rs[] = { 'a', 0xE9, 0x20AC, 0 }; o = rune_to_utf8_str(rs); break; }
		case 3: if (harbol_string_copy_cstr(&o, u)) { int32_t *q = utf8_str_to_rune(&o, &k); L(t, k); if (q) { Lb(t, q, k * 4); sim_free(q); } } break;
		case 4: { char w[8] = ""; L(t, write_utf8_cstr(w, 8, c & 1 ? 0x1F600 : 0xE9)); Lb(t, w, 8); L(t, get_str_rune_len(u)); break; }
		case 5: L(t, (uint64_t)convert_cstr_to_base_int(c & 1 ? "123" : "77", 10, "0123456789", &ok)); L(t, ok); break;
		default: { const char *e = NULL; L(t, (uint64_t)lex_hex_escape_char("41z", &e)); L(t, (uint64_t)lex_octal_escape_char("101", &e)); L(t, (uint64_t)lex_unicode_char("00e9", &e, 4)); }
		}
		Ls(t, &o); break; }
	case O_FILE: { snprintf(nm, sizeof nm, "t%d.raw", t->id); sim_file_put(nm, txt, tn); size_t n = 0;
		if (umod(a, 3) == 2) { FILE *fp = sim_fopen(nm, "rb"); L(t, fp != NULL); if (fp) { int32_t *q = runes_from_stream(fp, &n); L(t, q != NULL); if (q) { Lb(t, q, n * 4); sim_free(q); } sim_fclose(fp); } break; }
		void *q = a & 1 ? (void *)shim_buffer_from_binary(nm, &n) : (void *)shim_buffer_from_text(nm, &n); L(t, q != NULL); if (q) { Lb(t, q, n); sim_free(q); } break; }
	case O_POOLS2: { size_t n = 1 + umod(b, 40);
		switch (umod(a, 5)) {
		case 0: { struct HarbolObjPool q = harbol_objpool_make(8 + umod(b, 30), 1 + umod(c, 9), &ok); L(t, ok); if (ok) { void *h[12]; size_t k = 0; while (k < 12 && (h[k] = harbol_objpool_alloc(&q))) memset(h[k++], t->id, 4); L(t, k); while (k) harbol_objpool_cleanup(&q, &h[--k]); harbol_objpool_clear(&q); } break; }
		case 1: { struct HarbolRegion q = harbol_region_make(64 + n); L(t, q.mem != NULL); if (q.mem) { void *g = harbol_region_alloc(&q, n); L(t, g != NULL); if (g) memset(g, t->id, n); L(t, harbol_region_remaining(&q)); harbol_region_clear(&q); } break; }
		case 2: { struct HarbolBiStack q = harbol_bistack_make(100, &ok); L(t, ok); if (ok) { L(t, harbol_bistack_alloc_front(&q, n) != NULL); L(t, harbol_bistack_alloc_back(&q, n) != NULL); L(t, harbol_bistack_resize(&q, 200)); L(t, harbol_bistack_get_margins(q)); harbol_bistack_clear(&q); } break; }
		default: { struct HarbolMemPool q = harbol_mempool_make(2000, &ok); L(t, ok); if (ok) { void *h[6];
			for (int i = 0; i < 6; i++) { h[i] = harbol_mempool_alloc(&q, 1 + umod(b * (i + 1), 200)); L(t, h[i] ? (uint64_t)((uint8_t *)h[i] - q.stack.mem) : 1u << 20); if (h[i]) memset(h[i], t->id + i, 1); }
			for (int i = 0; i < 6; i += 2) L(t, harbol_mempool_free(&q, h[i]));
			void *z = h[1] ? harbol_mempool_realloc(&q, h[1], n * 3) : NULL; L(t, z ? (uint64_t)((uint8_t *)z - q.stack.mem) : 7); L(t, z ? *(uint8_t *)z : 0); L(t, harbol_mempool_mem_remaining(&q)); L(t, harbol_mempool_cleanup(&q, &h[3])); harbol_mempool_clear(&q); } }
		} break; }
	case O_MSG2: { SimFile *f; FILE *fp = sim_sink(&f); size_t cnt = 0; snprintf(nm, sizeof nm, "t%d.src", t->id); char src[120]; snprintf(src, sizeof src, "first %d\n\tsecond line\r\nthird\n\n%.40s\n", t->id, txt); sim_file_put(nm, src, strlen(src));
		struct HarbolMsgSpan ms = harbol_msg_span_make(nm, true, b & 1, &ok); L(t, ok);
		if (ok) { struct HarbolTokenSpan s1 = { 1, 1 + (uint32_t)umod(c, 4), 2, 2 + (uint32_t)umod(b, 9) }, s2 = { 2, 1, 2 + (uint32_t)umod(c, 3), 4 }; s1 = harbol_token_span_merge(s1, s2); L(t, s1.line_start * 1000 + s1.line_end * 100 + s1.colm_start * 10 + s1.colm_end);
			L(t, harbol_msg_span_add_label(&ms, s1, NULL, '~', NULL, "%d", t->id)); L(t, harbol_msg_span_add_label(&ms, s2, COLOR_CYAN, 0x2190, COLOR_GREEN, "%.20s", txt)); L(t, harbol_msg_span_add_note(&ms, COLOR_RED, "n%d", (int)b)); L(t, harbol_msg_span_get_num_lines(&ms));
			const struct HarbolString *q = harbol_msg_span_get_line(&ms, umod(b, 6)); if (q) Lb(t, q->cstr ? q->cstr : "", q->len);
			for (int i = 0; i < 2; i++) harbol_msg_span_emit_to_stream(&ms, &cnt, fp, "f.c", "warn", "W1", COLOR_RED, NULL, NULL, "%s", i ? "again" : txt); }
		harbol_msg_span_clear(&ms); fflush(fp); L(t, cnt); Lb(t, f->d ? (void *)f->d : "", f->len); sim_fclose(fp); sim_sink_free(f); break; }
	case O_LINKS: { int n = (int)umod(b, 6), d = 6 + n;
		switch (umod(a, 5)) {
		case 0: case 1: if (!t->inl[n]) { memset(t->nodes[n], 0, sizeof t->nodes[n]); (umod(a, 5) ? shim_s_tail : shim_s_head)(&t->lh, t->nodes[n], &t->lt); t->inl[n] = true; } break;
		case 2: case 3: if (!t->ind[n]) { memset(t->nodes[d], 0, sizeof t->nodes[d]); (umod(a, 5) == 2 ? shim_d_head : shim_d_tail)(&t->dh, t->nodes[d], &t->dt); t->ind[n] = true; } break;
		default: if (t->ind[n]) { shim_d_remove(&t->dh, t->nodes[d], &t->dt); t->ind[n] = false; }
		}
		int g = 0; for (void *q = t->lh; q && g < 20; q = shim_get_a(q), g++) L(t, (uint64_t)((void *(*)[4])q - t->nodes)); L(t, 50);
		for (void *q = t->dh; q && g < 40; q = shim_get_a(q), g++) L(t, (uint64_t)((void *(*)[4])q - t->nodes)); L(t, 51);
		for (void *q = t->dt; q && g < 60; q = shim_get_b(q), g++) L(t, (uint64_t)((void *(*)[4])q - t->nodes)); break; }
	case O_BUFS: {
		switch (umod(a, 4)) {
		case 0: case 1: { void *p[3] = { 0 }; size_t es[3] = { 1, 4, 8 }, n = 1 + umod(b, 20), n2 = 1 + umod(c, 40); ok = shim_multi_calloc(n, 3, p, es); L(t, ok); if (ok) { for (int i = 0; i < 3; i++) for (size_t k = 0; k < n * es[i]; k++) ((uint8_t *)p[i])[k] = (uint8_t)(k + (size_t)i + (size_t)t->id); size_t m = n; if (shim_multi_recalloc(n2, n, 3, p, es)) m = n2; L(t, m); size_t l = m; L(t, shim_multi_shift(&l, umod(b, m), umod(c, 3), 3, p, es)); L(t, l); for (int i = 0; i < 3; i++) Lb(t, p[i], m * es[i]); shim_multi_cleanup(3, p); } break; }
		case 2: { char *q = shim_sprintf(0, txt, (long)b, (double)c); L(t, q != NULL); if (q) { Lb(t, q, strlen(q)); sim_free(q); } q = shim_dup_cstr(tn, txt); L(t, q != NULL); if (q) { Lb(t, q, tn); sim_free(q); } q = shim_dup_data(&v, 8); L(t, q != NULL); if (q) { Lb(t, q, 8); sim_free(q); } break; }
		default: { uint8_t w[64]; for (int i = 0; i < 64; i++) w[i] = (uint8_t)(i + t->id); size_t l = 16, o = 1 + umod(b, 9); L(t, shim_shift(w, &l, umod(b, 17), 4, umod(c, 5))); L(t, l); Lb(t, w, 64); void *q = shim_recalloc(NULL, o, 4, 0); L(t, q != NULL); if (q) { memset(q, t->id, 4); void *z = shim_recalloc(q, 20, 4, o); L(t, z != NULL); if (z) Lb(t, z, 80); sim_free(z ? z : q); } }
		} break; }
	default: break;
	}
}
