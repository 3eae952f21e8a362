// The library in other configurations: its functions are called through a table.
// The driver links each configuration into one object and prefixes its symbols (see PBT_CONFIG in the harness).
#pragma once
extern "C" {
#include <bpak/bpak.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/crypto.h>
#include <bpak/id.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
#include <bpak/merkle.h>
#include <bpak/pkg.h>
#include <bpak/transport.h>
#include <bpak/utils.h>
#include <bpak/verify.h>
}
#define BIG_FUNCS(X) \
    X(bpak_bsdiff) \
    X(bpak_bsdiff_free) \
    X(bpak_bsdiff_init) \
    X(bpak_bspatch_final) \
    X(bpak_bspatch_free) \
    X(bpak_bspatch_init) \
    X(bpak_bspatch_write) \
    X(bpak_calloc) \
    X(bpak_crypto_load_private_key) \
    X(bpak_crypto_load_public_key) \
    X(bpak_crypto_parse_public_key) \
    X(bpak_crypto_setup) \
    X(bpak_free) \
    X(bpak_hash_setup) \
    X(bpak_keystore_load_key_from_file) \
    X(bpak_merkle_finish) \
    X(bpak_merkle_init) \
    X(bpak_merkle_write_chunk) \
    X(bpak_pkg_add_file) \
    X(bpak_pkg_add_file_with_merkle_tree) \
    X(bpak_pkg_add_key) \
    X(bpak_pkg_close) \
    X(bpak_pkg_delete_all_parts) \
    X(bpak_pkg_delete_part) \
    X(bpak_pkg_extract_file) \
    X(bpak_pkg_open) \
    X(bpak_pkg_part_sha256) \
    X(bpak_pkg_sign) \
    X(bpak_pkg_transport_decode) \
    X(bpak_pkg_transport_encode) \
    X(bpak_pkg_update_hash) \
    X(bpak_pkg_verify) \
    X(bpak_set_calloc_free) \
    X(bpak_transport_decode_finish) \
    X(bpak_transport_decode_free) \
    X(bpak_transport_decode_init) \
    X(bpak_transport_decode_set_origin) \
    X(bpak_transport_decode_start) \
    X(bpak_transport_decode_write_chunk) \
    X(bpak_verify_compute_header_hash) \
    X(bpak_verify_compute_payload_hash) \
    X(bpak_verify_merkle_tree) \
    X(bpak_verify_payload)
#define SMALL_FUNCS(X) \
    X(bpak_add_meta) \
    X(bpak_add_part) \
    X(bpak_add_transport_meta) \
    X(bpak_copyz_signature) \
    X(bpak_del_meta) \
    X(bpak_del_part) \
    X(bpak_error_string) \
    X(bpak_get_meta) \
    X(bpak_get_meta_anyref) \
    X(bpak_get_part) \
    X(bpak_hash_kind) \
    X(bpak_init_header) \
    X(bpak_part_offset) \
    X(bpak_part_size) \
    X(bpak_part_size_wo_pad) \
    X(bpak_set_key_id) \
    X(bpak_set_keystore_id) \
    X(bpak_signature_kind) \
    X(bpak_valid_header) \
    X(bpak_version) \
    X(bpak_id) \
    X(bpak_id_to_string) \
    X(bpak_keystore_get) \
    X(bpak_bin2hex) \
    X(bpak_hash_tree_id_to_part_id) \
    X(bpak_meta_to_string) \
    X(bpak_part_id_to_hash_tree_id) \
    X(bpak_part_name_to_hash_tree_id) \
    X(bpak_uuid_to_string)
#define ALL_FUNCS(X) BIG_FUNCS(X) SMALL_FUNCS(X)
struct Lib {
#define X(f) decltype(&::f) fn_##f;
    ALL_FUNCS(X)
#undef X
};
#define PREFIXED(p) \
    ALL_FUNCS(p##_DECL) \
    static const Lib p##_lib = {ALL_FUNCS(p##_ADDR)};
#define CONFIG_DECL(p, f) extern "C" decltype(::f) p##_##f __attribute__((weak));
#define full_DECL(f) CONFIG_DECL(full, f)
#define full_ADDR(f) full_##f,
#define nolzma_DECL(f) CONFIG_DECL(nolzma, f)
#define nolzma_ADDR(f) nolzma_##f,
#define nomerkle_DECL(f) CONFIG_DECL(nomerkle, f)
#define nomerkle_ADDR(f) nomerkle_##f,
#define bare_DECL(f) CONFIG_DECL(bare, f)
#define bare_ADDR(f) bare_##f,
#define minimal_DECL(f) CONFIG_DECL(minimal, f)
#define minimal_ADDR(f) minimal_##f,
#define own_DECL(f)
#define own_ADDR(f) f,
PREFIXED(own)
PREFIXED(full)
PREFIXED(nolzma)
PREFIXED(nomerkle)
PREFIXED(bare)
PREFIXED(minimal)
static const Lib *lib = &own_lib;
#define bpak_bsdiff (*lib->fn_bpak_bsdiff)
#define bpak_bsdiff_free (*lib->fn_bpak_bsdiff_free)
#define bpak_bsdiff_init (*lib->fn_bpak_bsdiff_init)
#define bpak_bspatch_final (*lib->fn_bpak_bspatch_final)
#define bpak_bspatch_free (*lib->fn_bpak_bspatch_free)
#define bpak_bspatch_init (*lib->fn_bpak_bspatch_init)
#define bpak_bspatch_write (*lib->fn_bpak_bspatch_write)
#define bpak_calloc (*lib->fn_bpak_calloc)
#define bpak_crypto_load_private_key (*lib->fn_bpak_crypto_load_private_key)
#define bpak_crypto_load_public_key (*lib->fn_bpak_crypto_load_public_key)
#define bpak_crypto_parse_public_key (*lib->fn_bpak_crypto_parse_public_key)
#define bpak_crypto_setup (*lib->fn_bpak_crypto_setup)
#define bpak_free (*lib->fn_bpak_free)
#define bpak_hash_setup (*lib->fn_bpak_hash_setup)
#define bpak_keystore_load_key_from_file (*lib->fn_bpak_keystore_load_key_from_file)
#define bpak_merkle_finish (*lib->fn_bpak_merkle_finish)
#define bpak_merkle_init (*lib->fn_bpak_merkle_init)
#define bpak_merkle_write_chunk (*lib->fn_bpak_merkle_write_chunk)
#define bpak_pkg_add_file (*lib->fn_bpak_pkg_add_file)
#define bpak_pkg_add_file_with_merkle_tree (*lib->fn_bpak_pkg_add_file_with_merkle_tree)
#define bpak_pkg_add_key (*lib->fn_bpak_pkg_add_key)
#define bpak_pkg_close (*lib->fn_bpak_pkg_close)
#define bpak_pkg_delete_all_parts (*lib->fn_bpak_pkg_delete_all_parts)
#define bpak_pkg_delete_part (*lib->fn_bpak_pkg_delete_part)
#define bpak_pkg_extract_file (*lib->fn_bpak_pkg_extract_file)
#define bpak_pkg_open (*lib->fn_bpak_pkg_open)
#define bpak_pkg_part_sha256 (*lib->fn_bpak_pkg_part_sha256)
#define bpak_pkg_sign (*lib->fn_bpak_pkg_sign)
#define bpak_pkg_transport_decode (*lib->fn_bpak_pkg_transport_decode)
#define bpak_pkg_transport_encode (*lib->fn_bpak_pkg_transport_encode)
#define bpak_pkg_update_hash (*lib->fn_bpak_pkg_update_hash)
#define bpak_pkg_verify (*lib->fn_bpak_pkg_verify)
#define bpak_set_calloc_free (*lib->fn_bpak_set_calloc_free)
#define bpak_transport_decode_finish (*lib->fn_bpak_transport_decode_finish)
#define bpak_transport_decode_free (*lib->fn_bpak_transport_decode_free)
#define bpak_transport_decode_init (*lib->fn_bpak_transport_decode_init)
#define bpak_transport_decode_set_origin (*lib->fn_bpak_transport_decode_set_origin)
#define bpak_transport_decode_start (*lib->fn_bpak_transport_decode_start)
#define bpak_transport_decode_write_chunk (*lib->fn_bpak_transport_decode_write_chunk)
#define bpak_verify_compute_header_hash (*lib->fn_bpak_verify_compute_header_hash)
#define bpak_verify_compute_payload_hash (*lib->fn_bpak_verify_compute_payload_hash)
#define bpak_verify_merkle_tree (*lib->fn_bpak_verify_merkle_tree)
#define bpak_verify_payload (*lib->fn_bpak_verify_payload)
#define bpak_add_meta (*lib->fn_bpak_add_meta)
#define bpak_add_part (*lib->fn_bpak_add_part)
#define bpak_add_transport_meta (*lib->fn_bpak_add_transport_meta)
#define bpak_copyz_signature (*lib->fn_bpak_copyz_signature)
#define bpak_del_meta (*lib->fn_bpak_del_meta)
#define bpak_del_part (*lib->fn_bpak_del_part)
#define bpak_error_string (*lib->fn_bpak_error_string)
#define bpak_get_meta (*lib->fn_bpak_get_meta)
#define bpak_get_meta_anyref (*lib->fn_bpak_get_meta_anyref)
#define bpak_get_part (*lib->fn_bpak_get_part)
#define bpak_init_header (*lib->fn_bpak_init_header)
#define bpak_part_offset (*lib->fn_bpak_part_offset)
#define bpak_part_size (*lib->fn_bpak_part_size)
#define bpak_part_size_wo_pad (*lib->fn_bpak_part_size_wo_pad)
#define bpak_set_key_id (*lib->fn_bpak_set_key_id)
#define bpak_set_keystore_id (*lib->fn_bpak_set_keystore_id)
#define bpak_valid_header (*lib->fn_bpak_valid_header)
#define bpak_version (*lib->fn_bpak_version)
#define bpak_id (*lib->fn_bpak_id)
#define bpak_id_to_string (*lib->fn_bpak_id_to_string)
#define bpak_keystore_get (*lib->fn_bpak_keystore_get)
#define bpak_bin2hex (*lib->fn_bpak_bin2hex)
#define bpak_hash_tree_id_to_part_id (*lib->fn_bpak_hash_tree_id_to_part_id)
#define bpak_meta_to_string (*lib->fn_bpak_meta_to_string)
#define bpak_part_id_to_hash_tree_id (*lib->fn_bpak_part_id_to_hash_tree_id)
#define bpak_part_name_to_hash_tree_id (*lib->fn_bpak_part_name_to_hash_tree_id)
#define bpak_uuid_to_string (*lib->fn_bpak_uuid_to_string)
