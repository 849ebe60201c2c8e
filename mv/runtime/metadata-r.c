static void mv_metadata(void) {
  mv_log("metadata"); mv_int("n", num_metadata); mv_end();
  for (int i = 0; i < num_metadata; ++i) {
    mv_log("meta"); mv_str("source", metadata_table[i].source); mv_str("name", metadata_table[i].name);
    mv_str("type", metadata_table[i].type); mv_str("value", metadata_table[i].value); mv_end();
  }
}
