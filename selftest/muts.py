J = "oups/aggstream/jcumsegagg.py"
U = "oups/aggstream/utils.py"
G = "oups/aggstream/segmentby.py"
A = "oups/aggstream/aggstream.py"
W = "oups/store/writer.py"
X = "oups/store/indexer.py"
C = "oups/store/collection.py"
K = "oups/aggstream/cumsegagg.py"
R = "oups/store/router.py"
V = "oups/store/utils.py"
H = "oups/aggstream/cumsegagg.py"
MUTS = {"t_agg": [
    ("jmax", J, "if val > res[i]:", "if val < res[i]:"),
    ("jmax", J, "            k = 1\n", "            k = 2\n"),
    ("jmax", J, "if len_ar > 1 or k == 0:", "if len_ar > 2 or k == 0:"),
    ("jlast", J, "return ar[-1]", "return ar[0]"),
    ("jfirst", J, "if use_init > 0:", "if use_init > 0 and len(ar) == 0:"),
    ("jcsagg", J, "bin_start = -1 if preserve_res else 0", "bin_start = 0"),
    ("jcsagg", J, "                bin_start = next_chunk_start\n", "                bin_start = chunk_start\n"),
    ("jcsagg", J, "                bin_res_idx += 1\n                preserve_res = False\n        else", "                bin_res_idx += 1\n        else"),
    ("jcsagg", J, "                snap_res_idx += 1\n                preserve_res = True", "                snap_res_idx += 1\n                preserve_res = len(chunk) != 0"),
    ("jcsagg", J, "if len(chunk) != 0:", "if len(chunk) > 1:"),
    ("jcsagg", J, "if next_bin_idx != last_bin_idx:", "if next_bin_idx < last_bin_idx - 1:"),
    ("jcsagg", J, "null_snap_indices[null_snap_idx] = snap_res_idx", "null_snap_indices[null_snap_idx] = null_snap_idx"),
    ("jcsagg", J, "        chunk_start = next_chunk_start", "        chunk_start = bin_start"),
],
    "t_flt": [
    ("dataframe_filter", U, "out |= and_part", "out ^= and_part"),
    ("dataframe_filter", U, "out |= and_part", "out = and_part"),
    ("dataframe_filter", U, '"<": operator.lt', '"<": operator.le'),
    ("dataframe_filter", U, "and_part &= df[name].isin(val).values", "and_part &= ~df[name].isin(val).values"),
    ("dataframe_filter", U, "and_part &= ~df[name].values", "and_part |= ~df[name].values"),
    ("dataframe_filter", U, "        and_part = ones(len(df), dtype=bool)\n        for", "        and_part = ones(len(df), dtype=bool) if or_part is filters[0] else and_part\n        for"),
    ],
    "t_str": [
    ("_iter_data refusals[keep,new,pre]", A, "(seed_chunk[ordered_on] < last_seed_index).any()", "(seed_chunk[ordered_on] < last_seed_index).all()"),
    ("_iter_data refusals[keep,new,pre]", A, "(seed_chunk[ordered_on] < last_seed_index).any()", "(seed_chunk[ordered_on] <= last_seed_index).any()"),
    ("_iter_data refusals[keep,new,pre]", A, "                raise SeedPreException(str(e))", "                continue"),
    ("_iter_data[trim,discard,restart,no pre]", A, "seed_chunk[ordered_on] >= restart_index", "seed_chunk[ordered_on] > restart_index"),
    ("_iter_data[trim,discard,restart,no pre]", A, "                trim_start = False", "                pass"),
    ("_iter_data[trim,discard,restart,no pre]", A, "pconcat([seed_remainder, seed_chunk], ignore_index=True)", "pconcat([seed_chunk, seed_remainder], ignore_index=True)"),
    ("_iter_data[trim,discard,restart,no pre]", A, "filter_array &= filter_main_chunk", "filter_array = filter_main_chunk & filter_main_chunk"),
    ("_iter_data[no trim,discard,new,pre]", A, "seed_remainder = seed_chunk.loc[~filter_main_chunk]", "seed_remainder = seed_chunk.loc[filter_main_chunk]"),
    ("_iter_data[no trim,keep,new,no pre]", A, "            elif filter_array_loc.all():", "            elif filter_array_loc.any():"),
    ("_iter_data[no trim,keep,new,no pre]", A, "                else filter_array.copy()", "                else dataframe_filter(seed_chunk, filters_)"),
    ],
    "t_cut": [
    ("iter_dataframe[pandas]", W, "(n_rows - 1) // max_row_group_size + 1", "n_rows // max_row_group_size"),
    ("iter_dataframe[pandas]", W, "(n_rows - 1) // max_row_group_size + 1", "(n_rows - 1) // max_row_group_size"),
    ("iter_dataframe[pandas]", W, "min((n_rows - 1) // n_parts + 1, n_rows)", "max((n_rows - 1) // n_parts, 1) + 1"),
    ("iter_dataframe[pandas]", W, "        starts = list(range(0, n_rows, row_group_size))", "        starts = list(range(0, n_rows - 1, row_group_size))"),
    ("iter_dataframe[sharp]", W, "val_at_start)).tolist()", "val_at_start, side='right')).tolist()"),
    ("iter_dataframe[sharp]", W, "ends = starts[1:] + [None]", "ends = starts[1:] + [n_rows - 1]"),
    ("iter_dataframe[sharp,duplicates_on name]", W, 'drop_duplicates(duplicates_on, keep="last")', 'drop_duplicates(duplicates_on)'),
    ("iter_dataframe[sharp,duplicates_on name]", W, "            duplicates_on = [duplicates_on, sharp_on]", "            duplicates_on = [duplicates_on]"),
    ("iter_dataframe[sharp,duplicates_on list]", W, "                duplicates_on = [*duplicates_on, sharp_on]", "                duplicates_on.append(sharp_on)"),
    ("iter_dataframe[sharp,duplicates_on list]", W, "if duplicates_on and sharp_on not in duplicates_on", "if sharp_on not in duplicates_on"),
    ],
    "t_midx": [
    ("to_midx[levels given]", W, "        max_levels = max(len(tup), max_levels)", "        max_levels = len(tup)"),
    ("to_midx[levels given]", W, "        levels = list(levels)", "        pass"),
    ("to_midx[levels given]", W, "for i in range(len_lev, max_levels)", "for i in range(diff)"),
    ("to_midx[levels given]", W, "(*t, *[\"\"] * n)", "(*[\"\"] * n, *t)"),
    ("to_midx[no levels]", W, "            tup = (val,)", "            tup = (val, '')"),
    ("to_midx[no levels]", W, "        diff = max_levels\n", "        diff = max_levels - 1\n"),
    ("check_cmidx", W, "    if None in cmidx.names:", "    if None in cmidx.names[1:]:"),
    ("check_cmidx", W, "            if not isinstance(name, str):", "            if not isinstance(name, (str, int)):"),
    ],
    "t_meta": [
    ("write_metadata[user metadata,key]", W, "                    if value is None:\n                        # Case 'remove'.", "                    if not value and key == 'x':"),
    ("write_metadata[user metadata,key]", W, "                    if value is None:", "                    if value is not None:"),
    ("write_metadata[user metadata,key]", W, "                elif value is not None:", "                elif value is None:"),
    ("write_metadata[user metadata,key]", W, "        del OUPS_METADATA[md_key]", "        OUPS_METADATA.get(md_key)"),
    ("write_metadata[user metadata,key]", W, "{**metadata, OUPS_METADATA_KEY", "{OUPS_METADATA_KEY"),
    ("write_metadata[no user metadata,key]", W, "key: value for key, value in new_oups_spec_md.items() if value is not None", "key: value for key, value in new_oups_spec_md.items()"),
    ("write_metadata[user metadata,no key]", W, "    pf._write_common_metadata()", "    pass"),
    ("write_metadata[user metadata,key]", W, "            metadata = {**metadata, OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}", "            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)"),
    ],
    "t_seg": [
    ("_next_chunk_starts (positions)", G, "if val > bin_:", "if val >= bin_:"),
    ("_next_chunk_starts (positions)", G, "            next_chunk_starts[b_idx_loc] = _d_idx + 1", "            next_chunk_starts[b_idx_loc] = _d_idx"),
    ("_next_chunk_starts (counts)", G, "        _d_idx += _d_idx_loc", "        _d_idx = _d_idx_loc"),
    ("by_x_rows[left,restart]", G, "rows_in_prev_last_bin != by else 0", "rows_in_prev_last_bin > by else 0"),
    ("by_x_rows[left,restart]", G, "n_rows_for_new_bins = len_on - rows_in_continued_bin", "n_rows_for_new_bins = len_on"),
    ("by_x_rows[right,restart]", G, "int(fmod(n_rows_for_new_bins, by)) or by", "int(fmod(n_rows_for_new_bins, by))"),
    ("by_x_rows[right,restart]", G, "                n_null_bins = 1", "                n_null_bins = 0"),
    ("by_x_rows[right,restart]", G, "n_rows_in_last_bin = rows_in_continued_bin + rows_in_prev_last_bin", "n_rows_in_last_bin = rows_in_continued_bin"),
    ("by_x_rows[right,none]", G, "next_chunk_starts - 1]", "next_chunk_starts - 2]"),
    ("mergesort[plain]", G, "len_labels1 <= sort_indices", "len_labels1 < sort_indices"),
    ("mergesort[plain]", G, "lexsort(tuple(map(concatenate, sort_keys)))", "concatenate(keys).argsort()"),
    ("mergesort[plain,sub-keys]", G, "(sub_keys, keys)", "(keys, sub_keys)"),
    ("mergesort[forced,sub-keys]", G, "(keys,) if sub_keys is None else (sub_keys, keys)", "(keys,)"),
    ("mergesort[forced]", G, "concatenate((k1, k2[:-1]))", "concatenate((k2[:-1], k1))"),
    ("mergesort[forced]", G, "len_tot, len_tot - 1", "len_tot, len_tot - 2"),
    ],
    "t_flush": [
    ("agg_iter[BINS,results in progress]", A, "bin_res_buffer.append(bin_res.iloc[:-1])", "bin_res_buffer.append(bin_res)"),
    ("agg_iter[BOTH,results in progress]", A, "agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res.iloc[:-1])", "agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res)"),
    ("agg_iter[BINS,results in progress]", A, "                append_last_res=False,", "                append_last_res=True,"),
    ("agg_iter[SNAPS,results in progress]", A, "        main_res = snap_res", "        main_res = bin_res"),
    ("agg_iter[BOTH,results in progress]", A, "write_config[KEY_MAX_ROW_GROUP_SIZE][1]", "write_config[KEY_MAX_ROW_GROUP_SIZE][0]"),
    ("agg_iter[BOTH,results in progress]", A, "        KEY_SNAP_RES_BUFFER: [],\n", "\n"),
    ("agg_iter[BINS,results in progress,post]", A, "        buffer=agg_buffers[KEY_SEGAGG_BUFFER],", "        buffer=dict(agg_buffers[KEY_SEGAGG_BUFFER]),"),
    ("agg_iter[BINS,results in progress,post]", A, "        KEY_AGG_IN_MEMORY_SIZE: 0,", "        KEY_AGG_IN_MEMORY_SIZE: 0, KEY_POST_BUFFER: {},"),
    ("agg_iter[BINS,results in progress]", A, "    agg_res_list = [*agg_res_buffers, agg_res] if append_last_res else agg_res_buffers", "    agg_res_list = [agg_res, *agg_res_buffers] if append_last_res else agg_res_buffers[-1:]"),
    ("_post_n_write_agg_chunks[BINS,results,recorded]", A, "[*agg_res_buffers, agg_res] if", "[agg_res, *agg_res_buffers] if"),
    ("_post_n_write_agg_chunks[BINS,results,recorded]", A, "                KEY_PRE_BUFFER: pre_buffer,", "                KEY_PRE_BUFFER: post_buffer,"),
    ("_post_n_write_agg_chunks[BOTH,results,recorded]", A, "        OUPS_METADATA[main_key] = {", "        OUPS_METADATA[key] = {"),
    ("_post_n_write_agg_chunks[BINS,results,recorded]", A, "    if initial_agg_res:", "    if initial_agg_res and not append_last_res:"),
    ("_post_n_write_agg_chunks[BINS,no result,recorded]", A, "    elif last_seed_index is not None:", "    elif initial_agg_res:"),
    ],
    "t_init": [
    ("_init_buffers", A, "if len(seed_index_restart_set) > 1:", "if len(seed_index_restart_set) > 2:"),
    ("_init_buffers", A, "        main_key = key[0] if isinstance(key, tuple) else key", "        main_key = key[1] if isinstance(key, tuple) else key"),
    ("_init_buffers", A, "            if not _is_aggstream_result(prev_agg_res):", "            if not prev_agg_res.metadata:"),
    ("_init_buffers", A, "            agg_buffers[key][KEY_POST_BUFFER] = (", "            agg_buffers[main_key][KEY_POST_BUFFER] = ("),
    ("_init_buffers", A, "aggstream_md[KEY_POST_BUFFER] if aggstream_md[KEY_POST_BUFFER] else {}", "aggstream_md[KEY_POST_BUFFER] if aggstream_md[KEY_SEGAGG_BUFFER] else {}"),
    ("_init_buffers", A, "            if KEY_PRE_BUFFER in aggstream_md:", "            if KEY_PRE_BUFFER not in aggstream_md:"),
    ("_init_buffers", A, "            agg_buffers[key][KEY_SEGAGG_BUFFER] = {}", "            agg_buffers[key][KEY_SEGAGG_BUFFER] = agg_buffers[key]"),
    ],
    "t_run": [
    ("AggStream.agg[trim,discard,final write]", A, "                    self.seed_config[KEY_RESTART_INDEX] = _last_seed_index", "                    restart_index = _last_seed_index"),
    ("AggStream.agg[trim,discard,final write]", A, "                    self.seed_config[KEY_PRE_BUFFER] = _pre_buffer", "                    pass"),
    ("AggStream.agg[trim,discard,final write]", A, "            seed_check_exception = False", "            seed_check_exception = True"),
    ("AggStream.agg[trim,discard,final write]", A, "        if final_write:", "        if final_write and not (seed and seed_check_exception):"),
    ("AggStream.agg[trim,discard,final write]", A, "                    append_last_res=True,", "                    append_last_res=not discard_last,"),
    ("AggStream.agg[trim,discard,final write]", A, "pre_buffer=self.seed_config[KEY_PRE_BUFFER],", "pre_buffer=None,"),
    ("AggStream.agg[no trim,discard,final write,first call]", A, "        seed = chain([first], remainder)", "        seed = remainder"),
    ("AggStream.agg[no trim,keep,no final write]", A, "                    discard_last=discard_last,", "                    discard_last=trim_start,"),
    ],
    "t_conf": [
    ("setup_segmentby[grouper]", G, "if bin_by.key != bin_on:", "if bin_on is None:"),
    ("setup_segmentby[grouper]", G, "                bin_on = bin_by.key\n", "                pass\n"),
    ("setup_segmentby[grouper]", G, "if bin_by_closed and snap_by.closed != bin_by_closed:", "if bin_on and snap_by.closed is bin_on:"),
    ("setup_segmentby[callable]", G, "elif snap_by.key != ordered_on:", "elif snap_by.key == bin_on:"),
    ("setup_segmentby[callable]", G, "                    ordered_on = snap_by.key", "                    ordered_on = bin_on"),
    ("setup_segmentby[callable]", G, "        KEY_BIN_ON: bin_on,", "        KEY_BIN_ON: bin_on or ordered_on,"),
    ("setup_segmentby[callable]", G, "if ordered_on and bin_on and ordered_on != bin_on", "if ordered_on and bin_on"),
    ("_init_keys_config[2-m-]", A, "key_conf_in = keys_default | key_conf_in", "key_conf_in = key_conf_in | keys_default"),
    ("_init_keys_config[----]", A, "        key_conf_in = dict(key_conf_in)\n", ""),
    ("_init_keys_config[--m-]", A, "key_conf_in[KEY_MAX_IN_MEMORY_SIZE_B] = int(", "key_conf_in[KEY_MAX_ROW_GROUP_SIZE] = int("),
    ("_init_keys_config[---b]", A, "            if bin_on_out is None:\n                # It may be", "            if True:\n                # It may be"),
    ("_init_keys_config[----]", A, "or key_conf_in[KEY_DUPLICATES_ON] is None", ""),
    ("_init_keys_config[2---]", A, "            agg_res_type = AggResType.SNAPS", "            agg_res_type = AggResType.BOTH"),
    ("_init_keys_config[2---]", A, "key_conf_in[KEY_MAX_ROW_GROUP_SIZE] = (None, None)", "pass"),
    ],
    "t_write": [
    ("write[pandas,ordered]", W, 'filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True)[:1]', "[]"),
    ("write[pandas,ordered]", W, 'filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True)[:1]', 'filter_row_groups(pf, [[(ordered_on, ">", start)]], as_idx=True)[-1:]'),
    ("write[pandas,ordered]", W, '(ordered_on, ">=", start)', '(ordered_on, ">", start)'),
    ("write[pandas,ordered]", W, "rrg_end_idx = rrgs_idx[-1] + 1", "rrg_end_idx = rrgs_idx[-1]"),
    ("write[vaex,ordered]", W, "data[ordered_on][:0].to_numpy()[0]", "data[ordered_on][-1:].to_numpy()[0]"),
    ("write[pandas,ordered]", W, "            data = data.sort(by=ordered_on)", "            pass"),
    ("write[pandas,ordered]", W, "            if rrg_end_idx is not None:\n                # New data", "            if False:\n                # New data"),
    ("write[pandas,ordered]", W, "recorded.concat(data)", "data.concat(recorded)"),
    ("write[pandas,ordered]", W, "                *kept_rgs[rrg_start_idx:],", "                *kept_rgs[rrg_end_idx:],"),
    ("write[pandas,ordered,coalescing]", W, "rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)", "rrg_start_idx = rrg_start_idx_tmp"),
    ("write[pandas,ordered,coalescing]", W, "not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)", "True"),
    ("write[pandas,ordered,coalescing]", W, "elif not rrg_end_idx and rrg_start_idx_tmp < n_rrgs:", "elif rrg_start_idx_tmp < n_rrgs:"),
    ("write[pandas,not ordered,coalescing]", W, "            if total_rows_in_irgs >= max_row_group_size or n_irgs", "            if total_rows_in_irgs > max_row_group_size or n_irgs"),
    ("write[pandas,ordered,duplicates_on list,coalescing]", W, "duplicates_on = [*duplicates_on, ordered_on]", "duplicates_on.append(ordered_on)"),
    ("write[pandas,ordered,duplicates_on name]", W, "duplicates_on = [duplicates_on, ordered_on]", "pass"),
    ("write[new,ordered]", W, "        if isinstance(chunk.columns, MultiIndex):", "        chunk = next(iter_data)\n        if isinstance(chunk.columns, MultiIndex):"),
    ],
    "t_read": [
    ("ParquetHandle.min_max", R, 'max(pf_stats["max"][col])', 'pf_stats["max"][col][-1]'),
    ("ParquetHandle.min_max", R, 'min(pf_stats["min"][col])', 'min(pf_stats["max"][col])'),
    ("ParquetHandle.vdf", R, "int(x[5:-8])", "x"),
    ("ParquetHandle.vdf", R, "        files.sort(key=lambda x: int(x[5:-8]))", "        files = files[:-1]"),
    ("ParquetHandle.vdf", R, ' if file.name[-7:] == "parquet"', ''),
    ("ParquetHandle.pdf", R, "return ParquetFile(self._dirpath).to_pandas()", "return self.pf"),
    ],
    "t_coll": [
    ("files_at_depth[at the depth]", V, "if not entry.is_dir(follow_symlinks=False)", "if entry.is_file(follow_symlinks=False)"),
    ("files_at_depth[at the depth]", V, "        if files:\n", "        if True:\n"),
    ("files_at_depth[above it]", V, "entry.path for entry in scandir(basepath) if entry.is_dir(follow_symlinks=False)", "entry.path for entry in scandir(basepath) if entry.is_dir()"),
    ("files_at_depth[above it]", V, "        depth -= 1\n", ""),
    ("files_at_depth[above it]", V, "for path in dirs:", "for path in dirs[1:]:"),
    ("get_keys", C, "any((is_parquet_file(file)", "all((is_parquet_file(file)"),
    ("get_keys", C, 'file.endswith(".parquet")', 'file.startswith("part")'),
    ("get_keys", C, "or file == \"_metadata\"", "or False"),
    ("get_keys", C, "files_at_depth(basepath, depth)", "files_at_depth(basepath, depth - 1)"),
    ("ParquetSet.__delitem__", C, "            rmtree(dirpath)\n", "            rmtree(strip_path_tail(dirpath))\n"),
    ("ParquetSet.__delitem__", C, "range(self._indexer.depth - 1)", "range(self._indexer.depth)"),
    ("ParquetSet.__delitem__", C, "range(self._indexer.depth - 1)", "range(self._indexer.depth - 2)"),
    ("ParquetSet.__delitem__", C, "            self._keys.remove(key)\n", ""),
    ("ParquetSet.__delitem__", C, "                if listdir(upper_dir):\n                    break\n", "                if listdir(upper_dir):\n                    continue\n"),
    ("ParquetSet.__delitem__", C, "                upper_dir = strip_path_tail(upper_dir)\n", ""),
    ("ParquetSet[set]", C, "            self._keys.add(key)", "            self._keys = self._keys"),
    ("ParquetSet[item with settings]", C, "self.set(key, data, **kwargs)", "self.set(key, data)"),
    ],
    "t_key": [
    ("toplevel", X, "if check:", "if not check:"),
    ("toplevel", X, "order=True, frozen=True", "order=True, frozen=True, eq=False"),
    ("toplevel", X, "partial(_dataclass_instance_to_str, as_path=True)", "partial(_dataclass_instance_to_str, as_path=False)"),
    ("_dataclass_instance_to_lists", X, "if _is_dataclass_instance(fields[-1]):", "if _is_dataclass_instance(fields[0]):"),
    ("_validate_toplevel_instance", X, "forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)", "forbidden_chars = FORBIDDEN_CHARS"),
    ("_validate_toplevel_instance", X, "if not counter:", "if False:"),
    ("_validate_toplevel_instance", X, "if counter + 1 != number_of_fields:", "if counter + 1 > number_of_fields:"),
    ("_validate_toplevel_instance", X, "any((symb in field_as_str", "all((symb in field_as_str"),
    ("_validate_toplevel_instance", X, "if [field for field in fields_ if not _is_dataclass_instance(field)] == [\"\"]:", "if fields_ == [\"\"]:"),
    ("_dataclass_instance_to_str[path]", X, "to_str[-1] = str(fields_[-1])", "to_str[-1] += str(fields_[-1])"),
    ("_dataclass_instance_to_str[path]", X, "if len(fields_) > 1:\n        to_str[-1] +=", "if len(fields_) > 2:\n        to_str[-1] +="),
    ("_dataclass_instance_to_str[path]", X, "DIR_SEP if as_path else toplevel.fields_sep\n    to_str", "toplevel.fields_sep\n    to_str"),
    ("_dataclass_instance_to_str[text]", X, "map(str, fields_[:-1])", "map(str, fields_)"),
    ("_dataclass_fields_types_to_lists", X, "types[-1][-1]", "types[0][-1]"),
    ("_dataclass_fields_types_to_lists", X, "types.append([field.type for field in fields(last)])", "types.append([field.type for field in fields(cls)])"),
    ("_dataclass_instance_from_str[text of a key]", X, "re.escape(fields_sep)", "fields_sep"),
    ("_dataclass_instance_from_str[path of a key]", X, "{DIR_SEP}|", ""),
    ("_dataclass_instance_from_str[text of a key]", X, "strings_as_list = strings_as_list[:-level_length]\n", "pass\n"),
    ("_dataclass_instance_from_str[text of a key]", X, "level_length = len(level_types) - 1", "level_length = len(level_types)"),
    ("_dataclass_instance_from_str[text of a key]", X, "level_types[:-1],", "level_types[1:],"),
    ("_dataclass_instance_from_str[any text]", X, "return key if string in (key.to_path, str(key)) else None", "return key"),
    ("_dataclass_instance_from_str[text of a key]", X, "return key if string in (key.to_path, str(key)) else None", "return key if string == key.to_path else None"),
    ("_dataclass_instance_from_str[any text]", X, "except (TypeError, ValueError):", "except TypeError:"),
    ],
    "t_scale": [
    ("by_scale[fixed duration,restart]", G, "first = buffer[KEY_RESTART_KEY] if buffer else on.iloc[0]", "first = on.iloc[0]"),
    ("by_scale[fixed duration,restart]", G, "            origin=origin,\n", "            origin=by.origin,\n"),
    ("by_scale[fixed duration,new]", G, "first if origin == \"start\" else first.normalize()", "first"),
    ("by_scale[fixed duration,no]", G, "chunk_ends if by.label == RIGHT else edges[:-1]", "edges[:-1] if by.label == RIGHT else chunk_ends"),
    ("by_scale[fixed duration,no]", G, "            closed=closed,\n            unit", "            closed=by.closed,\n            unit"),
    ("by_scale[fixed duration,new]", G, "buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 2]", "buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 1]"),
    ("by_scale[calendar,restart]", G, "elif isinstance(by.freq, Tick) or KEY_RESTART_KEY not in buffer:", "else:"),
    ("by_scale[fixed duration,restart]", G, "if closed == LEFT and isinstance(by, TimeGrouper):", "if by.closed == LEFT and isinstance(by, TimeGrouper):"),
    ("by_scale[ends,in progress]", G, "chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]]", "chunk_ends[chunk_ends > buffer[KEY_RESTART_KEY]]"),
    ("by_scale[labels and ends,in progress]", G, "chunk_labels[n_first_chunks_to_remove:]", "chunk_labels[:len(chunk_ends)]"),
    ("by_scale[labels and ends,beyond]", G, "                    chunk_labels = chunk_labels[1:]\n", ""),
    ("by_scale[ends,beyond]", G, "closed == LEFT and chunk_ends[0] <= last_on_value", "closed == LEFT and chunk_ends[0] < last_on_value"),
    ("by_scale[ends,beyond]", G, "(closed == RIGHT and chunk_ends[1] < last_on_value)", "(closed == RIGHT and chunk_ends[1] <= last_on_value)"),
    ("by_scale[ends,new]", G, "            chunk_ends = chunk_ends[:n_chunks]\n".replace("            ", "        "), ""),
    ("by_scale[ends,beyond]", G, "                del buffer[KEY_LAST_ON_VALUE]\n", ""),
    ("by_scale[ends,beyond]", G, "        buffer[KEY_LAST_ON_VALUE] = on.iloc[-1]\n    return", "    return"),
    ("by_scale[ends,no]", G, "            closed == RIGHT,\n        )\n    n_chunks", "            closed == LEFT,\n        )\n    n_chunks"),
    ],
    "t_sby": [
    ("segmentby[snapshots: series; buffer: restart]", G, "            closed=bin_closed,\n", "            closed=RIGHT,\n"),
    ("segmentby[snapshots: series; buffer: restart]", G, "            buffer=buffer_snap,\n", "            buffer=buffer_bin,\n"),
    ("segmentby[snapshots: series; buffer: no]", G, "            on=data.loc[:, ordered_on],\n", "            on=on,\n"),
    ("segmentby[snapshots: series; buffer: new]", G, "keys=(snap_ends, bin_ends)", "keys=(next_snap_starts, bin_ends)"),
    ("segmentby[snapshots: series; buffer: new]", G, "            force_last_from_second=unknown_last_bin_end,\n", ""),
    ("segmentby[snapshots: series; buffer: new]", G, "            sub_keys=(next_snap_starts, next_chunk_starts),\n", ""),
    ("segmentby[snapshots: series; buffer: new]", G, "append=len(next_chunk_starts)) - 1", "append=len(next_chunk_starts) - 1) - 1"),
    ("segmentby[snapshots: series; buffer: new]", G, "nonzero(ndiff(bin_indices, append=len(next_chunk_starts)) - 1)", "nonzero(ndiff(bin_indices) - 1)"),
    ("segmentby[snapshots: series; buffer: new]", G, "- next_chunk_starts[indices_of_bins_followed_by_a_snap + 1]", "- next_chunk_starts[indices_of_bins_followed_by_a_snap - 1]"),
    ("segmentby[snapshots: series; buffer: new]", G, "n_max_null_snaps += len(", "n_max_null_snaps = len("),
    ("segmentby[snapshots: no; buffer: restart]", G, "buffer[KEY_LAST_BIN_LABEL] = bin_labels.iloc[-1]\n    return (\n        next_chunk_starts,\n        bin_indices", "buffer[KEY_LAST_BIN_LABEL] = bin_labels.iloc[0]\n    return (\n        next_chunk_starts,\n        bin_indices"),
    ("segmentby[snapshots: no; buffer: restart]", G, "n_bins > 1 and next_chunk_starts[-2] == len(on)", "n_bins > 2 and next_chunk_starts[-2] == len(on)"),
    ("segmentby[snapshots: no; buffer: restart]", G, "buffer[KEY_LAST_BIN_LABEL] != bin_labels.iloc[0]", "buffer[KEY_LAST_BIN_LABEL] != bin_labels.iloc[-1]"),
    ("segmentby[snapshots: series; buffer: no]", G, ".diff().iloc[1:] >= 0).all()", ".diff().iloc[2:] >= 0).all()"),
    ("segmentby[snapshots: no; buffer: no]", G, ".diff().iloc[1:] >= Timedelta(0)).all()", ".diff().iloc[1:] > Timedelta(0)).all()"),
    ("segmentby[snapshots: no; buffer: no]", G, "if n_bins != len(bin_ends):", "if n_bins > len(bin_ends):"),
    ("segmentby[snapshots: grouper; buffer: restart]", G, "return buffer[KEY_BIN], buffer[KEY_SNAP]", "return buffer[KEY_BIN], buffer[KEY_BIN]"),
    ("segmentby[snapshots: grouper; buffer: restart]", G, "        if KEY_BIN not in buffer:\n", "        if True:\n"),
    ("segmentby[snapshots: grouper; buffer: restart]", G, "if isinstance(buffer, dict) and next_chunk_starts[-1] != len(data)", "if isinstance(buffer, dict) and next_chunk_starts[-1] > len(data)"),
    ],
    "t_csa": [
    ("cumsegagg[snapshots: series; buffer: restart]", H, "prev_last_bin_label != bin_labels.iloc[0]", "prev_last_bin_label == bin_labels.iloc[0]"),
    ("cumsegagg[snapshots: no; buffer: no]", H, "        preserve_res = False\n    else", "        preserve_res = True\n    else"),
    ("cumsegagg[snapshots: no; buffer: new]", H, "if preserve_res and prev_last_bin_label != bin_labels.iloc[0]", "if False"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "isinstance(buffer, dict) and KEY_LAST_CHUNK_RES in buffer", "isinstance(buffer, dict) and KEY_LAST_CHUNK_RES not in buffer"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "null_bin_indices = full(n_max_null_bins, -1, dtype=DTYPE_INT64)", "null_bin_indices = full(n_max_null_bins, 0, dtype=DTYPE_INT64)"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "null_snap_indices = full(n_max_null_snaps, -1", "null_snap_indices = full(n_max_null_bins, -1"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "name: bin_res_single_dtype[:, i] for i", "name: bin_res_single_dtype[:, 0] for i"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "name: snap_res_single_dtype[:, i] for i", "name: bin_res_single_dtype[:, i] for i"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "{name: chunk_res_single_dtype[i : i + 1] for i, name in enumerate(cols_name_in_res)},\n        )\n        #", "{name: chunk_res_single_dtype[:1] for i, name in enumerate(cols_name_in_res)},\n        )\n        #"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "bin_res.loc[is_null_bin, cols_name_in_res] = NULL_DICT[dtype_]", "bin_res.loc[is_null_bin, cols_name_in_res[:1]] = NULL_DICT[dtype_]"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "is_null_snap[null_snap_indices[~nisin(null_snap_indices, -1)]] = True", "is_null_snap[null_snap_indices] = True"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "    if n_max_null_bins != 0:", "    if n_max_null_bins > 1:"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "        if n_max_null_snaps != 0:", "        if n_max_null_bins != 0:"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "ordered_on if ordered_on else bin_by[KEY_BIN_ON]", "bin_by[KEY_BIN_ON]"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "DTYPE_FLOAT64: nNaN", "DTYPE_FLOAT64: pNaT"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "snap_res = pDataFrame(snap_res, index=snap_labels", "snap_res = pDataFrame(snap_res, index=bin_labels"),
    ("cumsegagg[snapshots: series; buffer: restart]", H, "            snap_by=snap_by,\n        buffer".replace("    ", "", 1), "        buffer"),
    ("cumsegagg[snapshots: no; buffer: restart]", H, "buffer[KEY_LAST_CHUNK_RES] = pDataFrame(chunk_res, copy=False)", "buffer.setdefault(KEY_LAST_CHUNK_RES, pDataFrame(chunk_res, copy=False))"),
    ],
}

_C = "oups/aggstream/cumsegagg.py"
_R = "setup_cumsegagg"
MUTS["t_req"] = [(_R, _C, a, b) for a, b in [
    ("            in_col_idx = len(cols_name_in_data)\n", "            in_col_idx = len(cols_name_in_data) - 1\n"),
    ("        out_col_idx = len(cols_name_in_res)\n        cols_name_in_res.append(out_col)", "        cols_name_in_res.append(out_col)\n        out_col_idx = len(cols_name_in_res)"),
    ("cols_res[func_idx].append(out_col_idx)", "cols_res[func_idx].append(in_col_idx)"),
    ("cols_data[func_idx].append(in_col_idx)", "cols_data[func_idx].append(out_col_idx)"),
    ("cols_data[func_idx].append(in_col_idx)", "cols_data[-1].append(in_col_idx)"),
    ("cols_res[func_idx].append(out_col_idx)", "cols_res[-1].append(out_col_idx)"),
    ("cols_res.append([out_col_idx])", "cols_res.append([0])"),
    ("cols_data.append([in_col_idx])", "cols_data.append([0])"),
    ("if in_col in cols_name_in_data:", "if cols_name_in_data:"),
    ("in_col_idx = cols_name_in_data.index(in_col)", "in_col_idx = 0"),
    ("cols_name_in_res.append(out_col)", "cols_name_in_res.append(in_col)"),
    ("func_idx = agg_funcs.index(agg_func)", "func_idx = len(agg_funcs) - 1"),
    ("if len(cols_data) <= func_idx:", "if len(cols_data) < func_idx:"),
    ("if len(cols_data) <= func_idx:", "if len(cols_data) <= out_col_idx:"),
    ("n_cols = sum(map(len, cols_res))", "n_cols = len(cols_res)"),
    ("map(array, cols_data), map(array, cols_res)", "map(array, cols_res), map(array, cols_data)"),
    ("            raise ValueError(f\"column '{in_col}' does not exist in input data.\")\n", "            continue\n"),
    ("raise ValueError(f\"`{func}` aggregation function is unknown.\")", "continue"),
    ("agg_funcs = conf.pop(2)\n        cols_data = conf.pop(2)\n        cols_res = conf.pop(2)", "agg_funcs = conf.pop(2)\n        cols_res = conf.pop(2)\n        cols_data = conf.pop(2)"),
    ("            agg_func := AGG_FUNCS[func]) in agg_funcs", "            agg_func := AGG_FUNCS[func]) in agg_funcs and False"),
]] + [(_R, "oups/aggstream/jcumsegagg.py", "MIN: jmin, MAX: jmax", "MIN: jmax, MAX: jmin")]
