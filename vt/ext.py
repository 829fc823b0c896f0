"""Models of external functions: what they write, allocate and free.

W[name] = list of (arg index, size) written; size is int, ('a', k) = value of argument k, or None (unknown extent).
A function that is in neither table is treated as writing through every pointer argument.
"""

READONLY = set("""ERR_clear_error __ctype_b_loc __ctype_tolower_loc __errno_location atoi atol atof cJSON_CreateArray cJSON_CreateBool
cJSON_CreateNumber cJSON_CreateObject cJSON_CreateString cJSON_CreateNull cJSON_CreateRaw cJSON_GetArrayItem cJSON_GetArraySize
cJSON_GetObjectItem cJSON_GetObjectItemCaseSensitive cJSON_HasObjectItem cJSON_IsArray cJSON_IsNumber cJSON_IsString cJSON_IsBool cJSON_IsTrue
cJSON_IsFalse cJSON_IsNull cJSON_IsObject cJSON_GetStringValue cJSON_GetNumberValue cJSON_Parse cJSON_ParseWithLength cJSON_ParseWithOpts cJSON_Print cJSON_PrintUnformatted
cJSON_Duplicate calloc malloc getenv htonl ntohl htons ntohs memcmp strcmp strncmp strcasecmp strncasecmp strlen strnlen strchr strrchr strstr strdup strndup
memchr strspn strcspn strpbrk strtod sysconf time tolower toupper usleep nanosleep isalpha isdigit isxdigit isspace isprint isupper islower isalnum
EVP_CIPHER_CTX_new EVP_chacha20_poly1305 EVP_sha512 EVP_sha256 secp256k1_context_create lws_create_context lws_get_opaque_user_data
lws_service lws_close_reason lws_client_connect_via_info lws_context_destroy lws_set_opaque_user_data lws_cancel_service lws_callback_on_writable
pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_mutex_destroy pthread_self pthread_equal
secp256k1_context_destroy secp256k1_ec_seckey_verify secp256k1_schnorrsig_verify secp256k1_context_randomize
mbedtls_ctr_drbg_free mbedtls_entropy_free printf puts putchar fprintf fputs abort exit __assert_fail llvm.threadlocal.address.p0 llvm.bswap.i64
llvm.bswap.i32 llvm.ctpop.i32 llvm.abs.i32 llvm.umul.with.overflow.i64 cJSON_free EVP_CIPHER_CTX_free free cJSON_Delete
OPENSSL_cleanse_dummy bsearch abs labs sched_yield localeconv strcoll strtok_dummy utf8proc_errmsg""".split())

W = {
    "llvm.memcpy.p0.p0.i64": [(0, ("a", 2))], "llvm.memmove.p0.p0.i64": [(0, ("a", 2))], "llvm.memset.p0.i64": [(0, ("a", 1 + 1))],
    "memcpy": [(0, ("a", 2))], "memmove": [(0, ("a", 2))], "memset": [(0, ("a", 2))],
    "explicit_bzero": [(0, ("a", 1))], "bzero": [(0, ("a", 1))], "OPENSSL_cleanse": [(0, ("a", 1))],
    "snprintf": [(0, ("a", 1))], "vsnprintf": [(0, ("a", 1))], "sprintf": [(0, None)], "strncpy": [(0, ("a", 2))], "strcpy": [(0, None)], "strcat": [(0, None)],
    "strncat": [(0, None)],
    "__isoc99_sscanf": "varout2", "sscanf": "varout2",
    "strtol": [(1, 8)], "strtoul": [(1, 8)], "strtoll": [(1, 8)], "strtoull": [(1, 8)],
    "strtok_r": [(0, None), (2, 8)], "strtok": [(0, None)],
    "gmtime_r": [(1, None)], "localtime_r": [(1, None)],
    "RAND_bytes": [(0, ("a", 1))], "SHA256": [(2, 32)], "SHA512": [(2, 64)],
    "HMAC": [(5, None), (6, 4)], "PKCS5_PBKDF2_HMAC": [(7, ("a", 6))],
    "EVP_PBE_scrypt": [(8, ("a", 9))],
    "EVP_EncryptInit_ex": [(0, None)], "EVP_DecryptInit_ex": [(0, None)], "EVP_CIPHER_CTX_ctrl": [(0, None), (3, None)],
    "EVP_EncryptUpdate": [(1, None), (2, 4)], "EVP_DecryptUpdate": [(1, None), (2, 4)],
    "EVP_EncryptFinal_ex": [(2, 4)], "EVP_DecryptFinal_ex": [(2, 4)],
    "secp256k1_ec_pubkey_create": [(1, 64)], "secp256k1_ec_pubkey_parse": [(1, 64)], "secp256k1_ec_pubkey_serialize": [(1, None), (2, 8)],
    "secp256k1_ec_seckey_tweak_add": [(1, 32)], "secp256k1_ecdh": [(1, 32)], "secp256k1_keypair_create": [(1, 96)],
    "secp256k1_keypair_xonly_pub": [(1, 64), (2, 4)], "secp256k1_schnorrsig_sign32": [(1, 64)], "secp256k1_schnorrsig_sign": [(1, 64)],
    "secp256k1_keypair_sec": [(1, 32)], "secp256k1_keypair_pub": [(1, 64)],
    "secp256k1_xonly_pubkey_from_pubkey": [(1, 64), (2, 4)], "secp256k1_xonly_pubkey_parse": [(1, 64)],
    "secp256k1_xonly_pubkey_serialize": [(1, 32)], "secp256k1_schnorrsig_sign_custom": [(1, 64)],
    "cJSON_AddItemToArray": [], "cJSON_AddItemToObject": [], "cJSON_AddStringToObject": [], "cJSON_AddNumberToObject": [],
    "cJSON_AddBoolToObject": [], "cJSON_AddArrayToObject": [], "cJSON_AddObjectToObject": [], "cJSON_AddNullToObject": [],
    "lws_write": [], "pthread_create": [(0, 8)], "pthread_mutex_init": [(0, 40)], "pthread_mutexattr_init": [(0, 4)],
    "mbedtls_ctr_drbg_init": [(0, None)], "mbedtls_entropy_init": [(0, None)], "mbedtls_ctr_drbg_seed": [(0, None)],
    "mbedtls_ctr_drbg_random": [(1, ("a", 2))], "mbedtls_sha256": [(2, 32)], "utf8proc_NFKD": [],
    "clock_gettime": [(1, 16)], "getrandom": [(0, ("a", 1))], "read": [(1, ("a", 2))], "gettimeofday": [(0, 16), (1, 8)],
}

# functions whose non-NULL result is a fresh object owned by the caller, with the matching release function
ALLOC = {
    "malloc": "free", "calloc": "free", "strdup": "free", "strndup": "free",
    "cJSON_Parse": "cJSON_Delete", "cJSON_ParseWithLength": "cJSON_Delete", "cJSON_ParseWithOpts": "cJSON_Delete", "cJSON_CreateArray": "cJSON_Delete",
    "cJSON_CreateObject": "cJSON_Delete", "cJSON_CreateString": "cJSON_Delete", "cJSON_CreateNumber": "cJSON_Delete",
    "cJSON_CreateBool": "cJSON_Delete", "cJSON_CreateNull": "cJSON_Delete", "cJSON_Duplicate": "cJSON_Delete",
    "cJSON_Print": "free", "cJSON_PrintUnformatted": "free",
    "EVP_CIPHER_CTX_new": "EVP_CIPHER_CTX_free", "utf8proc_NFKD": "free", "secp256k1_context_create": "secp256k1_context_destroy",
    "lws_create_context": "lws_context_destroy",
}
FREE = {"free": 0, "cJSON_Delete": 0, "EVP_CIPHER_CTX_free": 0, "cJSON_free": 0, "secp256k1_context_destroy": 0,
        "lws_context_destroy": 0}
