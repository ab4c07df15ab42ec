/* Included by /repo's semla_verif.h under -DSEMLA_VERIF: the invariants of the
 * named loops.  A unit gives the ones it needs in VP_LOOPS_H; the others are
 * unwound.
 *
 * VP_LOOP(name, inv, havoc) stands at the start of the loop body.  The first
 * arrival checks that inv holds, then replaces the state the loop may have
 * changed (havoc) by an arbitrary state that satisfies inv; the second arrival,
 * after one execution of the body, checks inv again and ends the path.
 * run.py checks mechanically that every variable the body assigns is in havoc. */
#ifndef SEMLA_LOOPS_H_
#define SEMLA_LOOPS_H_
/* VP_MORE_name, VP_KEEP0/1_name: variables of a changed body that inv does not know of, given by run.py: replaced
 * by anything, or kept and checked to be unchanged */
#ifndef VP_MORE_ssl_write
#define VP_MORE_ssl_write
#endif
#ifndef VP_KEEP0_ssl_write
#define VP_KEEP0_ssl_write
#define VP_KEEP1_ssl_write
#endif
#ifndef VP_MORE_ssl_read
#define VP_MORE_ssl_read
#endif
#ifndef VP_KEEP0_ssl_read
#define VP_KEEP0_ssl_read
#define VP_KEEP1_ssl_read
#endif
#ifndef VP_MORE_lve_receive
#define VP_MORE_lve_receive
#endif
#ifndef VP_KEEP0_lve_receive
#define VP_KEEP0_lve_receive
#define VP_KEEP1_lve_receive
#endif
#ifndef VP_MORE_read_more
#define VP_MORE_read_more
#endif
#ifndef VP_KEEP0_read_more
#define VP_KEEP0_read_more
#define VP_KEEP1_read_more
#endif
#ifndef VP_MORE_skip_empty_lines
#define VP_MORE_skip_empty_lines
#endif
#ifndef VP_KEEP0_skip_empty_lines
#define VP_KEEP0_skip_empty_lines
#define VP_KEEP1_skip_empty_lines
#endif
#ifndef VP_MORE_parent_element
#define VP_MORE_parent_element
#endif
#ifndef VP_KEEP0_parent_element
#define VP_KEEP0_parent_element
#define VP_KEEP1_parent_element
#endif
#ifndef VP_MORE_trim_slash
#define VP_MORE_trim_slash
#endif
#ifndef VP_KEEP0_trim_slash
#define VP_KEEP0_trim_slash
#define VP_KEEP1_trim_slash
#endif
#ifndef VP_MORE_demask_path
#define VP_MORE_demask_path
#endif
#ifndef VP_KEEP0_demask_path
#define VP_KEEP0_demask_path
#define VP_KEEP1_demask_path
#endif
#ifndef VP_MORE_mask_path
#define VP_MORE_mask_path
#endif
#ifndef VP_KEEP0_mask_path
#define VP_KEEP0_mask_path
#define VP_KEEP1_mask_path
#endif
#ifndef VP_MORE_encrypt_data
#define VP_MORE_encrypt_data
#endif
#ifndef VP_KEEP0_encrypt_data
#define VP_KEEP0_encrypt_data
#define VP_KEEP1_encrypt_data
#endif
#ifndef VP_MORE_strip_cr
#define VP_MORE_strip_cr
#endif
#ifndef VP_KEEP0_strip_cr
#define VP_KEEP0_strip_cr
#define VP_KEEP1_strip_cr
#endif
#ifndef VP_MORE_write_key
#define VP_MORE_write_key
#endif
#ifndef VP_KEEP0_write_key
#define VP_KEEP0_write_key
#define VP_KEEP1_write_key
#endif
#ifndef VP_MORE_manifest_text
#define VP_MORE_manifest_text
#endif
#ifndef VP_KEEP0_manifest_text
#define VP_KEEP0_manifest_text
#define VP_KEEP1_manifest_text
#endif
#ifndef VP_MORE_manifest_copy
#define VP_MORE_manifest_copy
#endif
#ifndef VP_KEEP0_manifest_copy
#define VP_KEEP0_manifest_copy
#define VP_KEEP1_manifest_copy
#endif
#ifndef VP_MORE_encrypt_dir
#define VP_MORE_encrypt_dir
#endif
#ifndef VP_KEEP0_encrypt_dir
#define VP_KEEP0_encrypt_dir
#define VP_KEEP1_encrypt_dir
#endif
#ifndef VP_MORE_zip_dir
#define VP_MORE_zip_dir
#endif
#ifndef VP_KEEP0_zip_dir
#define VP_KEEP0_zip_dir
#define VP_KEEP1_zip_dir
#endif
#ifndef VP_MORE_copy_dir
#define VP_MORE_copy_dir
#endif
#ifndef VP_KEEP0_copy_dir
#define VP_KEEP0_copy_dir
#define VP_KEEP1_copy_dir
#endif
#ifndef VP_MORE_find_file
#define VP_MORE_find_file
#endif
#ifndef VP_KEEP0_find_file
#define VP_KEEP0_find_file
#define VP_KEEP1_find_file
#endif
#ifndef VP_MORE_remove_dir
#define VP_MORE_remove_dir
#endif
#ifndef VP_KEEP0_remove_dir
#define VP_KEEP0_remove_dir
#define VP_KEEP1_remove_dir
#endif
#ifndef VP_MORE_args
#define VP_MORE_args
#endif
#ifndef VP_KEEP0_args
#define VP_KEEP0_args
#define VP_KEEP1_args
#endif
#ifndef VP_MORE_lower
#define VP_MORE_lower
#endif
#ifndef VP_KEEP0_lower
#define VP_KEEP0_lower
#define VP_KEEP1_lower
#endif
#ifndef VP_MORE_trim_path
#define VP_MORE_trim_path
#endif
#ifndef VP_KEEP0_trim_path
#define VP_KEEP0_trim_path
#define VP_KEEP1_trim_path
#endif
#define VP_LOOP(name, inv, ...) { extern int vp_ph_##name; \
    if (!vp_ph_##name) { __CPROVER_assert((inv), "loop " #name ": invariant holds initially"); VP_KEEP0_##name; \
        __VA_ARGS__; VP_MORE_##name; __CPROVER_assume(inv); vp_ph_##name = 1; } \
    else { __CPROVER_assert((inv), "loop " #name ": invariant preserved"); VP_KEEP1_##name; __CPROVER_assume(0); } }
#ifdef VP_LOOPS_H
#include VP_LOOPS_H
#endif
#ifndef VERIF_LOOP_ssl_write
#define VERIF_LOOP_ssl_write
#endif
#ifndef VERIF_LOOP_ssl_read
#define VERIF_LOOP_ssl_read
#endif
#ifndef VERIF_LOOP_lve_receive
#define VERIF_LOOP_lve_receive
#endif
#ifndef VERIF_LOOP_read_more
#define VERIF_LOOP_read_more
#endif
#ifndef VERIF_LOOP_skip_empty_lines
#define VERIF_LOOP_skip_empty_lines
#endif
#ifndef VERIF_LOOP_parent_element
#define VERIF_LOOP_parent_element
#endif
#ifndef VERIF_LOOP_trim_slash
#define VERIF_LOOP_trim_slash
#endif
#ifndef VERIF_LOOP_demask_path
#define VERIF_LOOP_demask_path
#endif
#ifndef VERIF_LOOP_mask_path
#define VERIF_LOOP_mask_path
#endif
#ifndef VERIF_LOOP_encrypt_data
#define VERIF_LOOP_encrypt_data
#endif
#ifndef VERIF_LOOP_strip_cr
#define VERIF_LOOP_strip_cr
#endif
#ifndef VERIF_LOOP_write_key
#define VERIF_LOOP_write_key
#endif
#ifndef VERIF_LOOP_manifest_text
#define VERIF_LOOP_manifest_text
#endif
#ifndef VERIF_LOOP_manifest_copy
#define VERIF_LOOP_manifest_copy
#endif
#ifndef VERIF_LOOP_encrypt_dir
#define VERIF_LOOP_encrypt_dir
#endif
#ifndef VERIF_LOOP_zip_dir
#define VERIF_LOOP_zip_dir
#endif
#ifndef VERIF_LOOP_copy_dir
#define VERIF_LOOP_copy_dir
#endif
#ifndef VERIF_LOOP_find_file
#define VERIF_LOOP_find_file
#endif
#ifndef VERIF_LOOP_remove_dir
#define VERIF_LOOP_remove_dir
#endif
#ifndef VERIF_LOOP_args
#define VERIF_LOOP_args
#endif
#ifndef VERIF_LOOP_lower
#define VERIF_LOOP_lower
#endif
#ifndef VERIF_LOOP_trim_path
#define VERIF_LOOP_trim_path
#endif
#endif
