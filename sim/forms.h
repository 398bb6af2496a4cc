// Log statements that seem to stand in other files: no directory, a long path, large line numbers, a long function name.
#line 2147480001 "nodirectory.cpp"
__attribute__((noinline)) void form_printf_if(uint32_t uid, uint32_t len, int lvl, char* buf, int cond) {
   const LEVELS& L = level_of(lvl);
   uint32_t k = skip(uid), n = sim_text(uid, len, LF_PRINTF_IF, buf);
   sim_range_write(buf, n + 1);
   bool c = cond ? sim_true() : sim_false();
   { Arm arm; EXPECT(LF_PRINTF_IF, 3, g_limit, cond ? 1 : 2); LOGF_IF(L, c, "#%u;%s", uid, buf + k); }
   memset(buf, '~', n + 1);
}
#line 70001 "/srv/build area/gen.er/ated/../modules/sub/sub/sub/sub/sub/sub/sub/sub/sub/sub/sub/sub/unit one.test.cc"
__attribute__((noinline)) void form_of_a_statement_in_a_function_with_a_rather_long_name_as_generated_code_and_deeply_nested_test_fixtures_tend_to_have_them_since_nobody_has_to_type_them(uint32_t uid, uint32_t len, int lvl) {
   const LEVELS& L = level_of(lvl);
   static thread_local char buf[4096];
   if (len > 4000) len = 4000;
   uint32_t n = sim_text(uid, len, LF_BUFFER, buf);
   sim_range_write(buf, n + 1);
   { Arm arm; EXPECT(LF_BUFFER, 4, 0, 1); LOG(L) << buf; }
   memset(buf, '~', n + 1);
}
