// Further error codes of Windows.
#ifndef ERROR_SUCCESS
#define ERROR_SUCCESS 0L
#endif
#ifndef ERROR_INVALID_FUNCTION
#define ERROR_INVALID_FUNCTION 1L
#endif
#ifndef ERROR_FILE_NOT_FOUND
#define ERROR_FILE_NOT_FOUND 2L
#endif
#ifndef ERROR_PATH_NOT_FOUND
#define ERROR_PATH_NOT_FOUND 3L
#endif
#ifndef ERROR_TOO_MANY_OPEN_FILES
#define ERROR_TOO_MANY_OPEN_FILES 4L
#endif
#ifndef ERROR_ACCESS_DENIED
#define ERROR_ACCESS_DENIED 5L
#endif
#ifndef ERROR_INVALID_HANDLE
#define ERROR_INVALID_HANDLE 6L
#endif
#ifndef ERROR_ARENA_TRASHED
#define ERROR_ARENA_TRASHED 7L
#endif
#ifndef ERROR_NOT_ENOUGH_MEMORY
#define ERROR_NOT_ENOUGH_MEMORY 8L
#endif
#ifndef ERROR_INVALID_BLOCK
#define ERROR_INVALID_BLOCK 9L
#endif
#ifndef ERROR_BAD_ENVIRONMENT
#define ERROR_BAD_ENVIRONMENT 10L
#endif
#ifndef ERROR_BAD_FORMAT
#define ERROR_BAD_FORMAT 11L
#endif
#ifndef ERROR_INVALID_ACCESS
#define ERROR_INVALID_ACCESS 12L
#endif
#ifndef ERROR_INVALID_DATA
#define ERROR_INVALID_DATA 13L
#endif
#ifndef ERROR_OUTOFMEMORY
#define ERROR_OUTOFMEMORY 14L
#endif
#ifndef ERROR_INVALID_DRIVE
#define ERROR_INVALID_DRIVE 15L
#endif
#ifndef ERROR_CURRENT_DIRECTORY
#define ERROR_CURRENT_DIRECTORY 16L
#endif
#ifndef ERROR_NOT_SAME_DEVICE
#define ERROR_NOT_SAME_DEVICE 17L
#endif
#ifndef ERROR_NO_MORE_FILES
#define ERROR_NO_MORE_FILES 18L
#endif
#ifndef ERROR_WRITE_PROTECT
#define ERROR_WRITE_PROTECT 19L
#endif
#ifndef ERROR_BAD_UNIT
#define ERROR_BAD_UNIT 20L
#endif
#ifndef ERROR_NOT_READY
#define ERROR_NOT_READY 21L
#endif
#ifndef ERROR_BAD_COMMAND
#define ERROR_BAD_COMMAND 22L
#endif
#ifndef ERROR_CRC
#define ERROR_CRC 23L
#endif
#ifndef ERROR_BAD_LENGTH
#define ERROR_BAD_LENGTH 24L
#endif
#ifndef ERROR_SEEK
#define ERROR_SEEK 25L
#endif
#ifndef ERROR_NOT_DOS_DISK
#define ERROR_NOT_DOS_DISK 26L
#endif
#ifndef ERROR_SECTOR_NOT_FOUND
#define ERROR_SECTOR_NOT_FOUND 27L
#endif
#ifndef ERROR_OUT_OF_PAPER
#define ERROR_OUT_OF_PAPER 28L
#endif
#ifndef ERROR_WRITE_FAULT
#define ERROR_WRITE_FAULT 29L
#endif
#ifndef ERROR_READ_FAULT
#define ERROR_READ_FAULT 30L
#endif
#ifndef ERROR_GEN_FAILURE
#define ERROR_GEN_FAILURE 31L
#endif
#ifndef ERROR_SHARING_VIOLATION
#define ERROR_SHARING_VIOLATION 32L
#endif
#ifndef ERROR_LOCK_VIOLATION
#define ERROR_LOCK_VIOLATION 33L
#endif
#ifndef ERROR_WRONG_DISK
#define ERROR_WRONG_DISK 34L
#endif
#ifndef ERROR_SHARING_BUFFER_EXCEEDED
#define ERROR_SHARING_BUFFER_EXCEEDED 36L
#endif
#ifndef ERROR_HANDLE_EOF
#define ERROR_HANDLE_EOF 38L
#endif
#ifndef ERROR_HANDLE_DISK_FULL
#define ERROR_HANDLE_DISK_FULL 39L
#endif
#ifndef ERROR_NOT_SUPPORTED
#define ERROR_NOT_SUPPORTED 50L
#endif
#ifndef ERROR_REM_NOT_LIST
#define ERROR_REM_NOT_LIST 51L
#endif
#ifndef ERROR_DUP_NAME
#define ERROR_DUP_NAME 52L
#endif
#ifndef ERROR_BAD_NETPATH
#define ERROR_BAD_NETPATH 53L
#endif
#ifndef ERROR_NETWORK_BUSY
#define ERROR_NETWORK_BUSY 54L
#endif
#ifndef ERROR_DEV_NOT_EXIST
#define ERROR_DEV_NOT_EXIST 55L
#endif
#ifndef ERROR_TOO_MANY_CMDS
#define ERROR_TOO_MANY_CMDS 56L
#endif
#ifndef ERROR_ADAP_HDW_ERR
#define ERROR_ADAP_HDW_ERR 57L
#endif
#ifndef ERROR_BAD_NET_RESP
#define ERROR_BAD_NET_RESP 58L
#endif
#ifndef ERROR_UNEXP_NET_ERR
#define ERROR_UNEXP_NET_ERR 59L
#endif
#ifndef ERROR_BAD_REM_ADAP
#define ERROR_BAD_REM_ADAP 60L
#endif
#ifndef ERROR_PRINTQ_FULL
#define ERROR_PRINTQ_FULL 61L
#endif
#ifndef ERROR_NO_SPOOL_SPACE
#define ERROR_NO_SPOOL_SPACE 62L
#endif
#ifndef ERROR_PRINT_CANCELLED
#define ERROR_PRINT_CANCELLED 63L
#endif
#ifndef ERROR_NETNAME_DELETED
#define ERROR_NETNAME_DELETED 64L
#endif
#ifndef ERROR_NETWORK_ACCESS_DENIED
#define ERROR_NETWORK_ACCESS_DENIED 65L
#endif
#ifndef ERROR_BAD_DEV_TYPE
#define ERROR_BAD_DEV_TYPE 66L
#endif
#ifndef ERROR_BAD_NET_NAME
#define ERROR_BAD_NET_NAME 67L
#endif
#ifndef ERROR_TOO_MANY_NAMES
#define ERROR_TOO_MANY_NAMES 68L
#endif
#ifndef ERROR_TOO_MANY_SESS
#define ERROR_TOO_MANY_SESS 69L
#endif
#ifndef ERROR_SHARING_PAUSED
#define ERROR_SHARING_PAUSED 70L
#endif
#ifndef ERROR_REQ_NOT_ACCEP
#define ERROR_REQ_NOT_ACCEP 71L
#endif
#ifndef ERROR_REDIR_PAUSED
#define ERROR_REDIR_PAUSED 72L
#endif
#ifndef ERROR_FILE_EXISTS
#define ERROR_FILE_EXISTS 80L
#endif
#ifndef ERROR_CANNOT_MAKE
#define ERROR_CANNOT_MAKE 82L
#endif
#ifndef ERROR_FAIL_I24
#define ERROR_FAIL_I24 83L
#endif
#ifndef ERROR_OUT_OF_STRUCTURES
#define ERROR_OUT_OF_STRUCTURES 84L
#endif
#ifndef ERROR_ALREADY_ASSIGNED
#define ERROR_ALREADY_ASSIGNED 85L
#endif
#ifndef ERROR_INVALID_PASSWORD
#define ERROR_INVALID_PASSWORD 86L
#endif
#ifndef ERROR_INVALID_PARAMETER
#define ERROR_INVALID_PARAMETER 87L
#endif
#ifndef ERROR_NET_WRITE_FAULT
#define ERROR_NET_WRITE_FAULT 88L
#endif
#ifndef ERROR_NO_PROC_SLOTS
#define ERROR_NO_PROC_SLOTS 89L
#endif
#ifndef ERROR_TOO_MANY_SEMAPHORES
#define ERROR_TOO_MANY_SEMAPHORES 100L
#endif
#ifndef ERROR_EXCL_SEM_ALREADY_OWNED
#define ERROR_EXCL_SEM_ALREADY_OWNED 101L
#endif
#ifndef ERROR_SEM_IS_SET
#define ERROR_SEM_IS_SET 102L
#endif
#ifndef ERROR_TOO_MANY_SEM_REQUESTS
#define ERROR_TOO_MANY_SEM_REQUESTS 103L
#endif
#ifndef ERROR_INVALID_AT_INTERRUPT_TIME
#define ERROR_INVALID_AT_INTERRUPT_TIME 104L
#endif
#ifndef ERROR_SEM_OWNER_DIED
#define ERROR_SEM_OWNER_DIED 105L
#endif
#ifndef ERROR_SEM_USER_LIMIT
#define ERROR_SEM_USER_LIMIT 106L
#endif
#ifndef ERROR_DISK_CHANGE
#define ERROR_DISK_CHANGE 107L
#endif
#ifndef ERROR_DRIVE_LOCKED
#define ERROR_DRIVE_LOCKED 108L
#endif
#ifndef ERROR_BROKEN_PIPE
#define ERROR_BROKEN_PIPE 109L
#endif
#ifndef ERROR_OPEN_FAILED
#define ERROR_OPEN_FAILED 110L
#endif
#ifndef ERROR_BUFFER_OVERFLOW
#define ERROR_BUFFER_OVERFLOW 111L
#endif
#ifndef ERROR_DISK_FULL
#define ERROR_DISK_FULL 112L
#endif
#ifndef ERROR_NO_MORE_SEARCH_HANDLES
#define ERROR_NO_MORE_SEARCH_HANDLES 113L
#endif
#ifndef ERROR_INVALID_TARGET_HANDLE
#define ERROR_INVALID_TARGET_HANDLE 114L
#endif
#ifndef ERROR_INVALID_CATEGORY
#define ERROR_INVALID_CATEGORY 117L
#endif
#ifndef ERROR_INVALID_VERIFY_SWITCH
#define ERROR_INVALID_VERIFY_SWITCH 118L
#endif
#ifndef ERROR_BAD_DRIVER_LEVEL
#define ERROR_BAD_DRIVER_LEVEL 119L
#endif
#ifndef ERROR_CALL_NOT_IMPLEMENTED
#define ERROR_CALL_NOT_IMPLEMENTED 120L
#endif
#ifndef ERROR_SEM_TIMEOUT
#define ERROR_SEM_TIMEOUT 121L
#endif
#ifndef ERROR_INSUFFICIENT_BUFFER
#define ERROR_INSUFFICIENT_BUFFER 122L
#endif
#ifndef ERROR_INVALID_NAME
#define ERROR_INVALID_NAME 123L
#endif
#ifndef ERROR_INVALID_LEVEL
#define ERROR_INVALID_LEVEL 124L
#endif
#ifndef ERROR_NO_VOLUME_LABEL
#define ERROR_NO_VOLUME_LABEL 125L
#endif
#ifndef ERROR_MOD_NOT_FOUND
#define ERROR_MOD_NOT_FOUND 126L
#endif
#ifndef ERROR_PROC_NOT_FOUND
#define ERROR_PROC_NOT_FOUND 127L
#endif
#ifndef ERROR_WAIT_NO_CHILDREN
#define ERROR_WAIT_NO_CHILDREN 128L
#endif
#ifndef ERROR_CHILD_NOT_COMPLETE
#define ERROR_CHILD_NOT_COMPLETE 129L
#endif
#ifndef ERROR_DIRECT_ACCESS_HANDLE
#define ERROR_DIRECT_ACCESS_HANDLE 130L
#endif
#ifndef ERROR_NEGATIVE_SEEK
#define ERROR_NEGATIVE_SEEK 131L
#endif
#ifndef ERROR_SEEK_ON_DEVICE
#define ERROR_SEEK_ON_DEVICE 132L
#endif
#ifndef ERROR_IS_JOIN_TARGET
#define ERROR_IS_JOIN_TARGET 133L
#endif
#ifndef ERROR_IS_JOINED
#define ERROR_IS_JOINED 134L
#endif
#ifndef ERROR_IS_SUBSTED
#define ERROR_IS_SUBSTED 135L
#endif
#ifndef ERROR_NOT_JOINED
#define ERROR_NOT_JOINED 136L
#endif
#ifndef ERROR_NOT_SUBSTED
#define ERROR_NOT_SUBSTED 137L
#endif
#ifndef ERROR_JOIN_TO_JOIN
#define ERROR_JOIN_TO_JOIN 138L
#endif
#ifndef ERROR_SUBST_TO_SUBST
#define ERROR_SUBST_TO_SUBST 139L
#endif
#ifndef ERROR_JOIN_TO_SUBST
#define ERROR_JOIN_TO_SUBST 140L
#endif
#ifndef ERROR_SUBST_TO_JOIN
#define ERROR_SUBST_TO_JOIN 141L
#endif
#ifndef ERROR_BUSY_DRIVE
#define ERROR_BUSY_DRIVE 142L
#endif
#ifndef ERROR_SAME_DRIVE
#define ERROR_SAME_DRIVE 143L
#endif
#ifndef ERROR_DIR_NOT_ROOT
#define ERROR_DIR_NOT_ROOT 144L
#endif
#ifndef ERROR_DIR_NOT_EMPTY
#define ERROR_DIR_NOT_EMPTY 145L
#endif
#ifndef ERROR_IS_SUBST_PATH
#define ERROR_IS_SUBST_PATH 146L
#endif
#ifndef ERROR_IS_JOIN_PATH
#define ERROR_IS_JOIN_PATH 147L
#endif
#ifndef ERROR_PATH_BUSY
#define ERROR_PATH_BUSY 148L
#endif
#ifndef ERROR_IS_SUBST_TARGET
#define ERROR_IS_SUBST_TARGET 149L
#endif
#ifndef ERROR_SYSTEM_TRACE
#define ERROR_SYSTEM_TRACE 150L
#endif
#ifndef ERROR_INVALID_EVENT_COUNT
#define ERROR_INVALID_EVENT_COUNT 151L
#endif
#ifndef ERROR_TOO_MANY_MUXWAITERS
#define ERROR_TOO_MANY_MUXWAITERS 152L
#endif
#ifndef ERROR_INVALID_LIST_FORMAT
#define ERROR_INVALID_LIST_FORMAT 153L
#endif
#ifndef ERROR_LABEL_TOO_LONG
#define ERROR_LABEL_TOO_LONG 154L
#endif
#ifndef ERROR_TOO_MANY_TCBS
#define ERROR_TOO_MANY_TCBS 155L
#endif
#ifndef ERROR_SIGNAL_REFUSED
#define ERROR_SIGNAL_REFUSED 156L
#endif
#ifndef ERROR_DISCARDED
#define ERROR_DISCARDED 157L
#endif
#ifndef ERROR_NOT_LOCKED
#define ERROR_NOT_LOCKED 158L
#endif
#ifndef ERROR_BAD_THREADID_ADDR
#define ERROR_BAD_THREADID_ADDR 159L
#endif
#ifndef ERROR_BAD_ARGUMENTS
#define ERROR_BAD_ARGUMENTS 160L
#endif
#ifndef ERROR_BAD_PATHNAME
#define ERROR_BAD_PATHNAME 161L
#endif
#ifndef ERROR_SIGNAL_PENDING
#define ERROR_SIGNAL_PENDING 162L
#endif
#ifndef ERROR_MAX_THRDS_REACHED
#define ERROR_MAX_THRDS_REACHED 164L
#endif
#ifndef ERROR_LOCK_FAILED
#define ERROR_LOCK_FAILED 167L
#endif
#ifndef ERROR_BUSY
#define ERROR_BUSY 170L
#endif
#ifndef ERROR_DEVICE_SUPPORT_IN_PROGRESS
#define ERROR_DEVICE_SUPPORT_IN_PROGRESS 171L
#endif
#ifndef ERROR_CANCEL_VIOLATION
#define ERROR_CANCEL_VIOLATION 173L
#endif
#ifndef ERROR_ATOMIC_LOCKS_NOT_SUPPORTED
#define ERROR_ATOMIC_LOCKS_NOT_SUPPORTED 174L
#endif
#ifndef ERROR_INVALID_SEGMENT_NUMBER
#define ERROR_INVALID_SEGMENT_NUMBER 180L
#endif
#ifndef ERROR_INVALID_ORDINAL
#define ERROR_INVALID_ORDINAL 182L
#endif
#ifndef ERROR_ALREADY_EXISTS
#define ERROR_ALREADY_EXISTS 183L
#endif
#ifndef ERROR_INVALID_FLAG_NUMBER
#define ERROR_INVALID_FLAG_NUMBER 186L
#endif
#ifndef ERROR_SEM_NOT_FOUND
#define ERROR_SEM_NOT_FOUND 187L
#endif
#ifndef ERROR_INVALID_STARTING_CODESEG
#define ERROR_INVALID_STARTING_CODESEG 188L
#endif
#ifndef ERROR_INVALID_STACKSEG
#define ERROR_INVALID_STACKSEG 189L
#endif
#ifndef ERROR_INVALID_MODULETYPE
#define ERROR_INVALID_MODULETYPE 190L
#endif
#ifndef ERROR_INVALID_EXE_SIGNATURE
#define ERROR_INVALID_EXE_SIGNATURE 191L
#endif
#ifndef ERROR_EXE_MARKED_INVALID
#define ERROR_EXE_MARKED_INVALID 192L
#endif
#ifndef ERROR_BAD_EXE_FORMAT
#define ERROR_BAD_EXE_FORMAT 193L
#endif
#ifndef ERROR_ITERATED_DATA_EXCEEDS_64k
#define ERROR_ITERATED_DATA_EXCEEDS_64k 194L
#endif
#ifndef ERROR_INVALID_MINALLOCSIZE
#define ERROR_INVALID_MINALLOCSIZE 195L
#endif
#ifndef ERROR_DYNLINK_FROM_INVALID_RING
#define ERROR_DYNLINK_FROM_INVALID_RING 196L
#endif
#ifndef ERROR_IOPL_NOT_ENABLED
#define ERROR_IOPL_NOT_ENABLED 197L
#endif
#ifndef ERROR_INVALID_SEGDPL
#define ERROR_INVALID_SEGDPL 198L
#endif
#ifndef ERROR_AUTODATASEG_EXCEEDS_64k
#define ERROR_AUTODATASEG_EXCEEDS_64k 199L
#endif
#ifndef ERROR_RING2SEG_MUST_BE_MOVABLE
#define ERROR_RING2SEG_MUST_BE_MOVABLE 200L
#endif
#ifndef ERROR_RELOC_CHAIN_XEEDS_SEGLIM
#define ERROR_RELOC_CHAIN_XEEDS_SEGLIM 201L
#endif
#ifndef ERROR_INFLOOP_IN_RELOC_CHAIN
#define ERROR_INFLOOP_IN_RELOC_CHAIN 202L
#endif
#ifndef ERROR_ENVVAR_NOT_FOUND
#define ERROR_ENVVAR_NOT_FOUND 203L
#endif
#ifndef ERROR_NO_SIGNAL_SENT
#define ERROR_NO_SIGNAL_SENT 205L
#endif
#ifndef ERROR_FILENAME_EXCED_RANGE
#define ERROR_FILENAME_EXCED_RANGE 206L
#endif
#ifndef ERROR_RING2_STACK_IN_USE
#define ERROR_RING2_STACK_IN_USE 207L
#endif
#ifndef ERROR_META_EXPANSION_TOO_LONG
#define ERROR_META_EXPANSION_TOO_LONG 208L
#endif
#ifndef ERROR_INVALID_SIGNAL_NUMBER
#define ERROR_INVALID_SIGNAL_NUMBER 209L
#endif
#ifndef ERROR_THREAD_1_INACTIVE
#define ERROR_THREAD_1_INACTIVE 210L
#endif
#ifndef ERROR_LOCKED
#define ERROR_LOCKED 212L
#endif
#ifndef ERROR_TOO_MANY_MODULES
#define ERROR_TOO_MANY_MODULES 214L
#endif
#ifndef ERROR_NESTING_NOT_ALLOWED
#define ERROR_NESTING_NOT_ALLOWED 215L
#endif
#ifndef ERROR_EXE_MACHINE_TYPE_MISMATCH
#define ERROR_EXE_MACHINE_TYPE_MISMATCH 216L
#endif
#ifndef ERROR_EXE_CANNOT_MODIFY_SIGNED_BINARY
#define ERROR_EXE_CANNOT_MODIFY_SIGNED_BINARY 217L
#endif
#ifndef ERROR_EXE_CANNOT_MODIFY_STRONG_SIGNED_BINARY
#define ERROR_EXE_CANNOT_MODIFY_STRONG_SIGNED_BINARY 218L
#endif
#ifndef ERROR_FILE_CHECKED_OUT
#define ERROR_FILE_CHECKED_OUT 220L
#endif
#ifndef ERROR_CHECKOUT_REQUIRED
#define ERROR_CHECKOUT_REQUIRED 221L
#endif
#ifndef ERROR_BAD_FILE_TYPE
#define ERROR_BAD_FILE_TYPE 222L
#endif
#ifndef ERROR_FILE_TOO_LARGE
#define ERROR_FILE_TOO_LARGE 223L
#endif
#ifndef ERROR_FORMS_AUTH_REQUIRED
#define ERROR_FORMS_AUTH_REQUIRED 224L
#endif
#ifndef ERROR_VIRUS_INFECTED
#define ERROR_VIRUS_INFECTED 225L
#endif
#ifndef ERROR_VIRUS_DELETED
#define ERROR_VIRUS_DELETED 226L
#endif
#ifndef ERROR_PIPE_LOCAL
#define ERROR_PIPE_LOCAL 229L
#endif
#ifndef ERROR_BAD_PIPE
#define ERROR_BAD_PIPE 230L
#endif
#ifndef ERROR_PIPE_BUSY
#define ERROR_PIPE_BUSY 231L
#endif
#ifndef ERROR_NO_DATA
#define ERROR_NO_DATA 232L
#endif
#ifndef ERROR_PIPE_NOT_CONNECTED
#define ERROR_PIPE_NOT_CONNECTED 233L
#endif
#ifndef ERROR_MORE_DATA
#define ERROR_MORE_DATA 234L
#endif
#ifndef ERROR_NO_WORK_DONE
#define ERROR_NO_WORK_DONE 235L
#endif
#ifndef ERROR_VC_DISCONNECTED
#define ERROR_VC_DISCONNECTED 240L
#endif
#ifndef ERROR_INVALID_EA_NAME
#define ERROR_INVALID_EA_NAME 254L
#endif
#ifndef ERROR_EA_LIST_INCONSISTENT
#define ERROR_EA_LIST_INCONSISTENT 255L
#endif
#ifndef ERROR_NO_MORE_ITEMS
#define ERROR_NO_MORE_ITEMS 259L
#endif
#ifndef ERROR_CANNOT_COPY
#define ERROR_CANNOT_COPY 266L
#endif
#ifndef ERROR_DIRECTORY
#define ERROR_DIRECTORY 267L
#endif
#ifndef ERROR_EAS_DIDNT_FIT
#define ERROR_EAS_DIDNT_FIT 275L
#endif
#ifndef ERROR_EA_FILE_CORRUPT
#define ERROR_EA_FILE_CORRUPT 276L
#endif
#ifndef ERROR_EA_TABLE_FULL
#define ERROR_EA_TABLE_FULL 277L
#endif
#ifndef ERROR_INVALID_EA_HANDLE
#define ERROR_INVALID_EA_HANDLE 278L
#endif
#ifndef ERROR_EAS_NOT_SUPPORTED
#define ERROR_EAS_NOT_SUPPORTED 282L
#endif
#ifndef ERROR_NOT_OWNER
#define ERROR_NOT_OWNER 288L
#endif
#ifndef ERROR_TOO_MANY_POSTS
#define ERROR_TOO_MANY_POSTS 298L
#endif
#ifndef ERROR_PARTIAL_COPY
#define ERROR_PARTIAL_COPY 299L
#endif
#ifndef ERROR_OPLOCK_NOT_GRANTED
#define ERROR_OPLOCK_NOT_GRANTED 300L
#endif
#ifndef ERROR_INVALID_OPLOCK_PROTOCOL
#define ERROR_INVALID_OPLOCK_PROTOCOL 301L
#endif
#ifndef ERROR_DISK_TOO_FRAGMENTED
#define ERROR_DISK_TOO_FRAGMENTED 302L
#endif
#ifndef ERROR_DELETE_PENDING
#define ERROR_DELETE_PENDING 303L
#endif
#ifndef ERROR_INCOMPATIBLE_WITH_GLOBAL_SHORT_NAME_REGISTRY_SETTING
#define ERROR_INCOMPATIBLE_WITH_GLOBAL_SHORT_NAME_REGISTRY_SETTING 304L
#endif
#ifndef ERROR_SHORT_NAMES_NOT_ENABLED_ON_VOLUME
#define ERROR_SHORT_NAMES_NOT_ENABLED_ON_VOLUME 305L
#endif
#ifndef ERROR_SECURITY_STREAM_IS_INCONSISTENT
#define ERROR_SECURITY_STREAM_IS_INCONSISTENT 306L
#endif
#ifndef ERROR_INVALID_LOCK_RANGE
#define ERROR_INVALID_LOCK_RANGE 307L
#endif
#ifndef ERROR_IMAGE_SUBSYSTEM_NOT_PRESENT
#define ERROR_IMAGE_SUBSYSTEM_NOT_PRESENT 308L
#endif
#ifndef ERROR_NOTIFICATION_GUID_ALREADY_DEFINED
#define ERROR_NOTIFICATION_GUID_ALREADY_DEFINED 309L
#endif
#ifndef ERROR_INVALID_EXCEPTION_HANDLER
#define ERROR_INVALID_EXCEPTION_HANDLER 310L
#endif
#ifndef ERROR_DUPLICATE_PRIVILEGES
#define ERROR_DUPLICATE_PRIVILEGES 311L
#endif
#ifndef ERROR_NO_RANGES_PROCESSED
#define ERROR_NO_RANGES_PROCESSED 312L
#endif
#ifndef ERROR_NOT_ALLOWED_ON_SYSTEM_FILE
#define ERROR_NOT_ALLOWED_ON_SYSTEM_FILE 313L
#endif
#ifndef ERROR_DISK_RESOURCES_EXHAUSTED
#define ERROR_DISK_RESOURCES_EXHAUSTED 314L
#endif
#ifndef ERROR_INVALID_TOKEN
#define ERROR_INVALID_TOKEN 315L
#endif
#ifndef ERROR_DEVICE_FEATURE_NOT_SUPPORTED
#define ERROR_DEVICE_FEATURE_NOT_SUPPORTED 316L
#endif
#ifndef ERROR_MR_MID_NOT_FOUND
#define ERROR_MR_MID_NOT_FOUND 317L
#endif
#ifndef ERROR_SCOPE_NOT_FOUND
#define ERROR_SCOPE_NOT_FOUND 318L
#endif
#ifndef ERROR_UNDEFINED_SCOPE
#define ERROR_UNDEFINED_SCOPE 319L
#endif
#ifndef ERROR_INVALID_CAP
#define ERROR_INVALID_CAP 320L
#endif
#ifndef ERROR_DEVICE_UNREACHABLE
#define ERROR_DEVICE_UNREACHABLE 321L
#endif
#ifndef ERROR_DEVICE_NO_RESOURCES
#define ERROR_DEVICE_NO_RESOURCES 322L
#endif
#ifndef ERROR_DATA_CHECKSUM_ERROR
#define ERROR_DATA_CHECKSUM_ERROR 323L
#endif
#ifndef ERROR_INTERMIXED_KERNEL_EA_OPERATION
#define ERROR_INTERMIXED_KERNEL_EA_OPERATION 324L
#endif
#ifndef ERROR_FILE_LEVEL_TRIM_NOT_SUPPORTED
#define ERROR_FILE_LEVEL_TRIM_NOT_SUPPORTED 326L
#endif
#ifndef ERROR_OFFSET_ALIGNMENT_VIOLATION
#define ERROR_OFFSET_ALIGNMENT_VIOLATION 327L
#endif
#ifndef ERROR_INVALID_FIELD_IN_PARAMETER_LIST
#define ERROR_INVALID_FIELD_IN_PARAMETER_LIST 328L
#endif
#ifndef ERROR_OPERATION_IN_PROGRESS
#define ERROR_OPERATION_IN_PROGRESS 329L
#endif
#ifndef ERROR_BAD_DEVICE_PATH
#define ERROR_BAD_DEVICE_PATH 330L
#endif
#ifndef ERROR_TOO_MANY_DESCRIPTORS
#define ERROR_TOO_MANY_DESCRIPTORS 331L
#endif
#ifndef ERROR_SCRUB_DATA_DISABLED
#define ERROR_SCRUB_DATA_DISABLED 332L
#endif
#ifndef ERROR_NOT_REDUNDANT_STORAGE
#define ERROR_NOT_REDUNDANT_STORAGE 333L
#endif
#ifndef ERROR_RESIDENT_FILE_NOT_SUPPORTED
#define ERROR_RESIDENT_FILE_NOT_SUPPORTED 334L
#endif
#ifndef ERROR_COMPRESSED_FILE_NOT_SUPPORTED
#define ERROR_COMPRESSED_FILE_NOT_SUPPORTED 335L
#endif
#ifndef ERROR_DIRECTORY_NOT_SUPPORTED
#define ERROR_DIRECTORY_NOT_SUPPORTED 336L
#endif
#ifndef ERROR_NOT_READ_FROM_COPY
#define ERROR_NOT_READ_FROM_COPY 337L
#endif
#ifndef ERROR_FT_WRITE_FAILURE
#define ERROR_FT_WRITE_FAILURE 338L
#endif
#ifndef ERROR_FT_DI_SCAN_REQUIRED
#define ERROR_FT_DI_SCAN_REQUIRED 339L
#endif
#ifndef ERROR_INVALID_KERNEL_INFO_VERSION
#define ERROR_INVALID_KERNEL_INFO_VERSION 340L
#endif
#ifndef ERROR_INVALID_PEP_INFO_VERSION
#define ERROR_INVALID_PEP_INFO_VERSION 341L
#endif
#ifndef ERROR_OBJECT_NOT_EXTERNALLY_BACKED
#define ERROR_OBJECT_NOT_EXTERNALLY_BACKED 342L
#endif
#ifndef ERROR_EXTERNAL_BACKING_PROVIDER_UNKNOWN
#define ERROR_EXTERNAL_BACKING_PROVIDER_UNKNOWN 343L
#endif
#ifndef ERROR_COMPRESSION_NOT_BENEFICIAL
#define ERROR_COMPRESSION_NOT_BENEFICIAL 344L
#endif
#ifndef ERROR_STORAGE_TOPOLOGY_ID_MISMATCH
#define ERROR_STORAGE_TOPOLOGY_ID_MISMATCH 345L
#endif
#ifndef ERROR_BLOCKED_BY_PARENTAL_CONTROLS
#define ERROR_BLOCKED_BY_PARENTAL_CONTROLS 346L
#endif
#ifndef ERROR_BLOCK_TOO_MANY_REFERENCES
#define ERROR_BLOCK_TOO_MANY_REFERENCES 347L
#endif
#ifndef ERROR_MARKED_TO_DISALLOW_WRITES
#define ERROR_MARKED_TO_DISALLOW_WRITES 348L
#endif
#ifndef ERROR_ENCLAVE_FAILURE
#define ERROR_ENCLAVE_FAILURE 349L
#endif
#ifndef ERROR_FAIL_NOACTION_REBOOT
#define ERROR_FAIL_NOACTION_REBOOT 350L
#endif
#ifndef ERROR_FAIL_SHUTDOWN
#define ERROR_FAIL_SHUTDOWN 351L
#endif
#ifndef ERROR_FAIL_RESTART
#define ERROR_FAIL_RESTART 352L
#endif
#ifndef ERROR_MAX_SESSIONS_REACHED
#define ERROR_MAX_SESSIONS_REACHED 353L
#endif
#ifndef ERROR_NETWORK_ACCESS_DENIED_EDP
#define ERROR_NETWORK_ACCESS_DENIED_EDP 354L
#endif
#ifndef ERROR_DEVICE_HINT_NAME_BUFFER_TOO_SMALL
#define ERROR_DEVICE_HINT_NAME_BUFFER_TOO_SMALL 355L
#endif
#ifndef ERROR_EDP_POLICY_DENIES_OPERATION
#define ERROR_EDP_POLICY_DENIES_OPERATION 356L
#endif
#ifndef ERROR_EDP_DPL_POLICY_CANT_BE_SATISFIED
#define ERROR_EDP_DPL_POLICY_CANT_BE_SATISFIED 357L
#endif
#ifndef ERROR_CLOUD_FILE_SYNC_ROOT_METADATA_CORRUPT
#define ERROR_CLOUD_FILE_SYNC_ROOT_METADATA_CORRUPT 358L
#endif
#ifndef ERROR_DEVICE_IN_MAINTENANCE
#define ERROR_DEVICE_IN_MAINTENANCE 359L
#endif
#ifndef ERROR_NOT_SUPPORTED_ON_DAX
#define ERROR_NOT_SUPPORTED_ON_DAX 360L
#endif
#ifndef ERROR_DAX_MAPPING_EXISTS
#define ERROR_DAX_MAPPING_EXISTS 361L
#endif
#ifndef ERROR_CLOUD_FILE_PROVIDER_NOT_RUNNING
#define ERROR_CLOUD_FILE_PROVIDER_NOT_RUNNING 362L
#endif
#ifndef ERROR_CLOUD_FILE_METADATA_CORRUPT
#define ERROR_CLOUD_FILE_METADATA_CORRUPT 363L
#endif
#ifndef ERROR_CLOUD_FILE_METADATA_TOO_LARGE
#define ERROR_CLOUD_FILE_METADATA_TOO_LARGE 364L
#endif
#ifndef ERROR_CLOUD_FILE_PROPERTY_BLOB_TOO_LARGE
#define ERROR_CLOUD_FILE_PROPERTY_BLOB_TOO_LARGE 365L
#endif
#ifndef ERROR_CLOUD_FILE_PROPERTY_BLOB_CHECKSUM_MISMATCH
#define ERROR_CLOUD_FILE_PROPERTY_BLOB_CHECKSUM_MISMATCH 366L
#endif
#ifndef ERROR_CHILD_PROCESS_BLOCKED
#define ERROR_CHILD_PROCESS_BLOCKED 367L
#endif
#ifndef ERROR_STORAGE_LOST_DATA_PERSISTENCE
#define ERROR_STORAGE_LOST_DATA_PERSISTENCE 368L
#endif
#ifndef ERROR_FILE_SYSTEM_VIRTUALIZATION_UNAVAILABLE
#define ERROR_FILE_SYSTEM_VIRTUALIZATION_UNAVAILABLE 369L
#endif
#ifndef ERROR_FILE_SYSTEM_VIRTUALIZATION_METADATA_CORRUPT
#define ERROR_FILE_SYSTEM_VIRTUALIZATION_METADATA_CORRUPT 370L
#endif
#ifndef ERROR_FILE_SYSTEM_VIRTUALIZATION_BUSY
#define ERROR_FILE_SYSTEM_VIRTUALIZATION_BUSY 371L
#endif
#ifndef ERROR_FILE_SYSTEM_VIRTUALIZATION_PROVIDER_UNKNOWN
#define ERROR_FILE_SYSTEM_VIRTUALIZATION_PROVIDER_UNKNOWN 372L
#endif
#ifndef ERROR_GDI_HANDLE_LEAK
#define ERROR_GDI_HANDLE_LEAK 373L
#endif
#ifndef ERROR_CLOUD_FILE_TOO_MANY_PROPERTY_BLOBS
#define ERROR_CLOUD_FILE_TOO_MANY_PROPERTY_BLOBS 374L
#endif
#ifndef ERROR_CLOUD_FILE_PROPERTY_VERSION_NOT_SUPPORTED
#define ERROR_CLOUD_FILE_PROPERTY_VERSION_NOT_SUPPORTED 375L
#endif
#ifndef ERROR_NOT_A_CLOUD_FILE
#define ERROR_NOT_A_CLOUD_FILE 376L
#endif
#ifndef ERROR_CLOUD_FILE_NOT_IN_SYNC
#define ERROR_CLOUD_FILE_NOT_IN_SYNC 377L
#endif
#ifndef ERROR_CLOUD_FILE_ALREADY_CONNECTED
#define ERROR_CLOUD_FILE_ALREADY_CONNECTED 378L
#endif
#ifndef ERROR_CLOUD_FILE_NOT_SUPPORTED
#define ERROR_CLOUD_FILE_NOT_SUPPORTED 379L
#endif
#ifndef ERROR_CLOUD_FILE_INVALID_REQUEST
#define ERROR_CLOUD_FILE_INVALID_REQUEST 380L
#endif
#ifndef ERROR_CLOUD_FILE_READ_ONLY_VOLUME
#define ERROR_CLOUD_FILE_READ_ONLY_VOLUME 381L
#endif
#ifndef ERROR_CLOUD_FILE_CONNECTED_PROVIDER_ONLY
#define ERROR_CLOUD_FILE_CONNECTED_PROVIDER_ONLY 382L
#endif
#ifndef ERROR_CLOUD_FILE_VALIDATION_FAILED
#define ERROR_CLOUD_FILE_VALIDATION_FAILED 383L
#endif
#ifndef ERROR_SMB1_NOT_AVAILABLE
#define ERROR_SMB1_NOT_AVAILABLE 384L
#endif
#ifndef ERROR_FILE_SYSTEM_VIRTUALIZATION_INVALID_OPERATION
#define ERROR_FILE_SYSTEM_VIRTUALIZATION_INVALID_OPERATION 385L
#endif
#ifndef ERROR_CLOUD_FILE_AUTHENTICATION_FAILED
#define ERROR_CLOUD_FILE_AUTHENTICATION_FAILED 386L
#endif
#ifndef ERROR_CLOUD_FILE_INSUFFICIENT_RESOURCES
#define ERROR_CLOUD_FILE_INSUFFICIENT_RESOURCES 387L
#endif
#ifndef ERROR_CLOUD_FILE_NETWORK_UNAVAILABLE
#define ERROR_CLOUD_FILE_NETWORK_UNAVAILABLE 388L
#endif
#ifndef ERROR_CLOUD_FILE_UNSUCCESSFUL
#define ERROR_CLOUD_FILE_UNSUCCESSFUL 389L
#endif
#ifndef ERROR_CLOUD_FILE_NOT_UNDER_SYNC_ROOT
#define ERROR_CLOUD_FILE_NOT_UNDER_SYNC_ROOT 390L
#endif
#ifndef ERROR_CLOUD_FILE_IN_USE
#define ERROR_CLOUD_FILE_IN_USE 391L
#endif
#ifndef ERROR_CLOUD_FILE_PINNED
#define ERROR_CLOUD_FILE_PINNED 392L
#endif
#ifndef ERROR_CLOUD_FILE_REQUEST_ABORTED
#define ERROR_CLOUD_FILE_REQUEST_ABORTED 393L
#endif
#ifndef ERROR_CLOUD_FILE_PROPERTY_CORRUPT
#define ERROR_CLOUD_FILE_PROPERTY_CORRUPT 394L
#endif
#ifndef ERROR_CLOUD_FILE_ACCESS_DENIED
#define ERROR_CLOUD_FILE_ACCESS_DENIED 395L
#endif
#ifndef ERROR_CLOUD_FILE_INCOMPATIBLE_HARDLINKS
#define ERROR_CLOUD_FILE_INCOMPATIBLE_HARDLINKS 396L
#endif
#ifndef ERROR_CLOUD_FILE_PROPERTY_LOCK_CONFLICT
#define ERROR_CLOUD_FILE_PROPERTY_LOCK_CONFLICT 397L
#endif
#ifndef ERROR_CLOUD_FILE_REQUEST_CANCELED
#define ERROR_CLOUD_FILE_REQUEST_CANCELED 398L
#endif
#ifndef ERROR_EXTERNAL_SYSKEY_NOT_SUPPORTED
#define ERROR_EXTERNAL_SYSKEY_NOT_SUPPORTED 399L
#endif
#ifndef ERROR_THREAD_MODE_ALREADY_BACKGROUND
#define ERROR_THREAD_MODE_ALREADY_BACKGROUND 400L
#endif
#ifndef ERROR_THREAD_MODE_NOT_BACKGROUND
#define ERROR_THREAD_MODE_NOT_BACKGROUND 401L
#endif
#ifndef ERROR_PROCESS_MODE_ALREADY_BACKGROUND
#define ERROR_PROCESS_MODE_ALREADY_BACKGROUND 402L
#endif
#ifndef ERROR_PROCESS_MODE_NOT_BACKGROUND
#define ERROR_PROCESS_MODE_NOT_BACKGROUND 403L
#endif
#ifndef ERROR_CLOUD_FILE_PROVIDER_TERMINATED
#define ERROR_CLOUD_FILE_PROVIDER_TERMINATED 404L
#endif
#ifndef ERROR_NOT_A_CLOUD_SYNC_ROOT
#define ERROR_NOT_A_CLOUD_SYNC_ROOT 405L
#endif
#ifndef ERROR_FILE_PROTECTED_UNDER_DPL
#define ERROR_FILE_PROTECTED_UNDER_DPL 406L
#endif
#ifndef ERROR_VOLUME_NOT_CLUSTER_ALIGNED
#define ERROR_VOLUME_NOT_CLUSTER_ALIGNED 407L
#endif
#ifndef ERROR_NO_PHYSICALLY_ALIGNED_FREE_SPACE_FOUND
#define ERROR_NO_PHYSICALLY_ALIGNED_FREE_SPACE_FOUND 408L
#endif
#ifndef ERROR_APPX_FILE_NOT_ENCRYPTED
#define ERROR_APPX_FILE_NOT_ENCRYPTED 409L
#endif
#ifndef ERROR_RWRAW_ENCRYPTED_FILE_NOT_ENCRYPTED
#define ERROR_RWRAW_ENCRYPTED_FILE_NOT_ENCRYPTED 410L
#endif
#ifndef ERROR_RWRAW_ENCRYPTED_INVALID_EDATAINFO_FILEOFFSET
#define ERROR_RWRAW_ENCRYPTED_INVALID_EDATAINFO_FILEOFFSET 411L
#endif
#ifndef ERROR_RWRAW_ENCRYPTED_INVALID_EDATAINFO_FILERANGE
#define ERROR_RWRAW_ENCRYPTED_INVALID_EDATAINFO_FILERANGE 412L
#endif
#ifndef ERROR_RWRAW_ENCRYPTED_INVALID_EDATAINFO_PARAMETER
#define ERROR_RWRAW_ENCRYPTED_INVALID_EDATAINFO_PARAMETER 413L
#endif
#ifndef ERROR_LINUX_SUBSYSTEM_NOT_PRESENT
#define ERROR_LINUX_SUBSYSTEM_NOT_PRESENT 414L
#endif
#ifndef ERROR_FT_READ_FAILURE
#define ERROR_FT_READ_FAILURE 415L
#endif
#ifndef ERROR_STORAGE_RESERVE_ID_INVALID
#define ERROR_STORAGE_RESERVE_ID_INVALID 416L
#endif
#ifndef ERROR_STORAGE_RESERVE_DOES_NOT_EXIST
#define ERROR_STORAGE_RESERVE_DOES_NOT_EXIST 417L
#endif
#ifndef ERROR_STORAGE_RESERVE_ALREADY_EXISTS
#define ERROR_STORAGE_RESERVE_ALREADY_EXISTS 418L
#endif
#ifndef ERROR_STORAGE_RESERVE_NOT_EMPTY
#define ERROR_STORAGE_RESERVE_NOT_EMPTY 419L
#endif
#ifndef ERROR_NOT_A_DAX_VOLUME
#define ERROR_NOT_A_DAX_VOLUME 420L
#endif
#ifndef ERROR_NOT_DAX_MAPPABLE
#define ERROR_NOT_DAX_MAPPABLE 421L
#endif
#ifndef ERROR_TIME_SENSITIVE_THREAD
#define ERROR_TIME_SENSITIVE_THREAD 422L
#endif
#ifndef ERROR_DPL_NOT_SUPPORTED_FOR_USER
#define ERROR_DPL_NOT_SUPPORTED_FOR_USER 423L
#endif
#ifndef ERROR_CASE_DIFFERING_NAMES_IN_DIR
#define ERROR_CASE_DIFFERING_NAMES_IN_DIR 424L
#endif
#ifndef ERROR_FILE_NOT_SUPPORTED
#define ERROR_FILE_NOT_SUPPORTED 425L
#endif
#ifndef ERROR_CLOUD_FILE_REQUEST_TIMEOUT
#define ERROR_CLOUD_FILE_REQUEST_TIMEOUT 426L
#endif
#ifndef ERROR_NO_TASK_QUEUE
#define ERROR_NO_TASK_QUEUE 427L
#endif
#ifndef ERROR_SRC_SRV_DLL_LOAD_FAILED
#define ERROR_SRC_SRV_DLL_LOAD_FAILED 428L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_BTT
#define ERROR_NOT_SUPPORTED_WITH_BTT 429L
#endif
#ifndef ERROR_ENCRYPTION_DISABLED
#define ERROR_ENCRYPTION_DISABLED 430L
#endif
#ifndef ERROR_ENCRYPTING_METADATA_DISALLOWED
#define ERROR_ENCRYPTING_METADATA_DISALLOWED 431L
#endif
#ifndef ERROR_CANT_CLEAR_ENCRYPTION_FLAG
#define ERROR_CANT_CLEAR_ENCRYPTION_FLAG 432L
#endif
#ifndef ERROR_NO_SUCH_DEVICE
#define ERROR_NO_SUCH_DEVICE 433L
#endif
#ifndef ERROR_CLOUD_FILE_DEHYDRATION_DISALLOWED
#define ERROR_CLOUD_FILE_DEHYDRATION_DISALLOWED 434L
#endif
#ifndef ERROR_FILE_SNAP_IN_PROGRESS
#define ERROR_FILE_SNAP_IN_PROGRESS 435L
#endif
#ifndef ERROR_FILE_SNAP_USER_SECTION_NOT_SUPPORTED
#define ERROR_FILE_SNAP_USER_SECTION_NOT_SUPPORTED 436L
#endif
#ifndef ERROR_FILE_SNAP_MODIFY_NOT_SUPPORTED
#define ERROR_FILE_SNAP_MODIFY_NOT_SUPPORTED 437L
#endif
#ifndef ERROR_FILE_SNAP_IO_NOT_COORDINATED
#define ERROR_FILE_SNAP_IO_NOT_COORDINATED 438L
#endif
#ifndef ERROR_FILE_SNAP_UNEXPECTED_ERROR
#define ERROR_FILE_SNAP_UNEXPECTED_ERROR 439L
#endif
#ifndef ERROR_FILE_SNAP_INVALID_PARAMETER
#define ERROR_FILE_SNAP_INVALID_PARAMETER 440L
#endif
#ifndef ERROR_UNSATISFIED_DEPENDENCIES
#define ERROR_UNSATISFIED_DEPENDENCIES 441L
#endif
#ifndef ERROR_CASE_SENSITIVE_PATH
#define ERROR_CASE_SENSITIVE_PATH 442L
#endif
#ifndef ERROR_UNEXPECTED_NTCACHEMANAGER_ERROR
#define ERROR_UNEXPECTED_NTCACHEMANAGER_ERROR 443L
#endif
#ifndef ERROR_LINUX_SUBSYSTEM_UPDATE_REQUIRED
#define ERROR_LINUX_SUBSYSTEM_UPDATE_REQUIRED 444L
#endif
#ifndef ERROR_DLP_POLICY_WARNS_AGAINST_OPERATION
#define ERROR_DLP_POLICY_WARNS_AGAINST_OPERATION 445L
#endif
#ifndef ERROR_DLP_POLICY_DENIES_OPERATION
#define ERROR_DLP_POLICY_DENIES_OPERATION 446L
#endif
#ifndef ERROR_SECURITY_DENIES_OPERATION
#define ERROR_SECURITY_DENIES_OPERATION 447L
#endif
#ifndef ERROR_UNTRUSTED_MOUNT_POINT
#define ERROR_UNTRUSTED_MOUNT_POINT 448L
#endif
#ifndef ERROR_DLP_POLICY_SILENTLY_FAIL
#define ERROR_DLP_POLICY_SILENTLY_FAIL 449L
#endif
#ifndef ERROR_CAPAUTHZ_NOT_DEVUNLOCKED
#define ERROR_CAPAUTHZ_NOT_DEVUNLOCKED 450L
#endif
#ifndef ERROR_CAPAUTHZ_CHANGE_TYPE
#define ERROR_CAPAUTHZ_CHANGE_TYPE 451L
#endif
#ifndef ERROR_CAPAUTHZ_NOT_PROVISIONED
#define ERROR_CAPAUTHZ_NOT_PROVISIONED 452L
#endif
#ifndef ERROR_CAPAUTHZ_NOT_AUTHORIZED
#define ERROR_CAPAUTHZ_NOT_AUTHORIZED 453L
#endif
#ifndef ERROR_CAPAUTHZ_NO_POLICY
#define ERROR_CAPAUTHZ_NO_POLICY 454L
#endif
#ifndef ERROR_CAPAUTHZ_DB_CORRUPTED
#define ERROR_CAPAUTHZ_DB_CORRUPTED 455L
#endif
#ifndef ERROR_CAPAUTHZ_SCCD_INVALID_CATALOG
#define ERROR_CAPAUTHZ_SCCD_INVALID_CATALOG 456L
#endif
#ifndef ERROR_CAPAUTHZ_SCCD_NO_AUTH_ENTITY
#define ERROR_CAPAUTHZ_SCCD_NO_AUTH_ENTITY 457L
#endif
#ifndef ERROR_CAPAUTHZ_SCCD_PARSE_ERROR
#define ERROR_CAPAUTHZ_SCCD_PARSE_ERROR 458L
#endif
#ifndef ERROR_CAPAUTHZ_SCCD_DEV_MODE_REQUIRED
#define ERROR_CAPAUTHZ_SCCD_DEV_MODE_REQUIRED 459L
#endif
#ifndef ERROR_CAPAUTHZ_SCCD_NO_CAPABILITY_MATCH
#define ERROR_CAPAUTHZ_SCCD_NO_CAPABILITY_MATCH 460L
#endif
#ifndef ERROR_CIMFS_IMAGE_CORRUPT
#define ERROR_CIMFS_IMAGE_CORRUPT 470L
#endif
#ifndef ERROR_CIMFS_IMAGE_VERSION_NOT_SUPPORTED
#define ERROR_CIMFS_IMAGE_VERSION_NOT_SUPPORTED 471L
#endif
#ifndef ERROR_STORAGE_STACK_ACCESS_DENIED
#define ERROR_STORAGE_STACK_ACCESS_DENIED 472L
#endif
#ifndef ERROR_INSUFFICIENT_VIRTUAL_ADDR_RESOURCES
#define ERROR_INSUFFICIENT_VIRTUAL_ADDR_RESOURCES 473L
#endif
#ifndef ERROR_INDEX_OUT_OF_BOUNDS
#define ERROR_INDEX_OUT_OF_BOUNDS 474L
#endif
#ifndef ERROR_CLOUD_FILE_US_MESSAGE_TIMEOUT
#define ERROR_CLOUD_FILE_US_MESSAGE_TIMEOUT 475L
#endif
#ifndef ERROR_PNP_QUERY_REMOVE_DEVICE_TIMEOUT
#define ERROR_PNP_QUERY_REMOVE_DEVICE_TIMEOUT 480L
#endif
#ifndef ERROR_PNP_QUERY_REMOVE_RELATED_DEVICE_TIMEOUT
#define ERROR_PNP_QUERY_REMOVE_RELATED_DEVICE_TIMEOUT 481L
#endif
#ifndef ERROR_PNP_QUERY_REMOVE_UNRELATED_DEVICE_TIMEOUT
#define ERROR_PNP_QUERY_REMOVE_UNRELATED_DEVICE_TIMEOUT 482L
#endif
#ifndef ERROR_DEVICE_HARDWARE_ERROR
#define ERROR_DEVICE_HARDWARE_ERROR 483L
#endif
#ifndef ERROR_INVALID_ADDRESS
#define ERROR_INVALID_ADDRESS 487L
#endif
#ifndef ERROR_HAS_SYSTEM_CRITICAL_FILES
#define ERROR_HAS_SYSTEM_CRITICAL_FILES 488L
#endif
#ifndef ERROR_ENCRYPTED_FILE_NOT_SUPPORTED
#define ERROR_ENCRYPTED_FILE_NOT_SUPPORTED 489L
#endif
#ifndef ERROR_SPARSE_FILE_NOT_SUPPORTED
#define ERROR_SPARSE_FILE_NOT_SUPPORTED 490L
#endif
#ifndef ERROR_PAGEFILE_NOT_SUPPORTED
#define ERROR_PAGEFILE_NOT_SUPPORTED 491L
#endif
#ifndef ERROR_VOLUME_NOT_SUPPORTED
#define ERROR_VOLUME_NOT_SUPPORTED 492L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_BYPASSIO
#define ERROR_NOT_SUPPORTED_WITH_BYPASSIO 493L
#endif
#ifndef ERROR_NO_BYPASSIO_DRIVER_SUPPORT
#define ERROR_NO_BYPASSIO_DRIVER_SUPPORT 494L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_ENCRYPTION
#define ERROR_NOT_SUPPORTED_WITH_ENCRYPTION 495L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_COMPRESSION
#define ERROR_NOT_SUPPORTED_WITH_COMPRESSION 496L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_REPLICATION
#define ERROR_NOT_SUPPORTED_WITH_REPLICATION 497L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_DEDUPLICATION
#define ERROR_NOT_SUPPORTED_WITH_DEDUPLICATION 498L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_AUDITING
#define ERROR_NOT_SUPPORTED_WITH_AUDITING 499L
#endif
#ifndef ERROR_USER_PROFILE_LOAD
#define ERROR_USER_PROFILE_LOAD 500L
#endif
#ifndef ERROR_SESSION_KEY_TOO_SHORT
#define ERROR_SESSION_KEY_TOO_SHORT 501L
#endif
#ifndef ERROR_ACCESS_DENIED_APPDATA
#define ERROR_ACCESS_DENIED_APPDATA 502L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_MONITORING
#define ERROR_NOT_SUPPORTED_WITH_MONITORING 503L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_SNAPSHOT
#define ERROR_NOT_SUPPORTED_WITH_SNAPSHOT 504L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_VIRTUALIZATION
#define ERROR_NOT_SUPPORTED_WITH_VIRTUALIZATION 505L
#endif
#ifndef ERROR_BYPASSIO_FLT_NOT_SUPPORTED
#define ERROR_BYPASSIO_FLT_NOT_SUPPORTED 506L
#endif
#ifndef ERROR_DEVICE_RESET_REQUIRED
#define ERROR_DEVICE_RESET_REQUIRED 507L
#endif
#ifndef ERROR_VOLUME_WRITE_ACCESS_DENIED
#define ERROR_VOLUME_WRITE_ACCESS_DENIED 508L
#endif
#ifndef ERROR_NOT_SUPPORTED_WITH_CACHED_HANDLE
#define ERROR_NOT_SUPPORTED_WITH_CACHED_HANDLE 509L
#endif
#ifndef ERROR_FS_METADATA_INCONSISTENT
#define ERROR_FS_METADATA_INCONSISTENT 510L
#endif
#ifndef ERROR_BLOCK_WEAK_REFERENCE_INVALID
#define ERROR_BLOCK_WEAK_REFERENCE_INVALID 511L
#endif
#ifndef ERROR_BLOCK_SOURCE_WEAK_REFERENCE_INVALID
#define ERROR_BLOCK_SOURCE_WEAK_REFERENCE_INVALID 512L
#endif
#ifndef ERROR_BLOCK_TARGET_WEAK_REFERENCE_INVALID
#define ERROR_BLOCK_TARGET_WEAK_REFERENCE_INVALID 513L
#endif
#ifndef ERROR_BLOCK_SHARED
#define ERROR_BLOCK_SHARED 514L
#endif
#ifndef ERROR_ARITHMETIC_OVERFLOW
#define ERROR_ARITHMETIC_OVERFLOW 534L
#endif
#ifndef ERROR_PIPE_CONNECTED
#define ERROR_PIPE_CONNECTED 535L
#endif
#ifndef ERROR_PIPE_LISTENING
#define ERROR_PIPE_LISTENING 536L
#endif
#ifndef ERROR_VERIFIER_STOP
#define ERROR_VERIFIER_STOP 537L
#endif
#ifndef ERROR_ABIOS_ERROR
#define ERROR_ABIOS_ERROR 538L
#endif
#ifndef ERROR_WX86_WARNING
#define ERROR_WX86_WARNING 539L
#endif
#ifndef ERROR_WX86_ERROR
#define ERROR_WX86_ERROR 540L
#endif
#ifndef ERROR_TIMER_NOT_CANCELED
#define ERROR_TIMER_NOT_CANCELED 541L
#endif
#ifndef ERROR_UNWIND
#define ERROR_UNWIND 542L
#endif
#ifndef ERROR_BAD_STACK
#define ERROR_BAD_STACK 543L
#endif
#ifndef ERROR_INVALID_UNWIND_TARGET
#define ERROR_INVALID_UNWIND_TARGET 544L
#endif
#ifndef ERROR_INVALID_PORT_ATTRIBUTES
#define ERROR_INVALID_PORT_ATTRIBUTES 545L
#endif
#ifndef ERROR_PORT_MESSAGE_TOO_LONG
#define ERROR_PORT_MESSAGE_TOO_LONG 546L
#endif
#ifndef ERROR_INVALID_QUOTA_LOWER
#define ERROR_INVALID_QUOTA_LOWER 547L
#endif
#ifndef ERROR_DEVICE_ALREADY_ATTACHED
#define ERROR_DEVICE_ALREADY_ATTACHED 548L
#endif
#ifndef ERROR_INSTRUCTION_MISALIGNMENT
#define ERROR_INSTRUCTION_MISALIGNMENT 549L
#endif
#ifndef ERROR_PROFILING_NOT_STARTED
#define ERROR_PROFILING_NOT_STARTED 550L
#endif
#ifndef ERROR_PROFILING_NOT_STOPPED
#define ERROR_PROFILING_NOT_STOPPED 551L
#endif
#ifndef ERROR_COULD_NOT_INTERPRET
#define ERROR_COULD_NOT_INTERPRET 552L
#endif
#ifndef ERROR_PROFILING_AT_LIMIT
#define ERROR_PROFILING_AT_LIMIT 553L
#endif
#ifndef ERROR_CANT_WAIT
#define ERROR_CANT_WAIT 554L
#endif
#ifndef ERROR_CANT_TERMINATE_SELF
#define ERROR_CANT_TERMINATE_SELF 555L
#endif
#ifndef ERROR_UNEXPECTED_MM_CREATE_ERR
#define ERROR_UNEXPECTED_MM_CREATE_ERR 556L
#endif
#ifndef ERROR_UNEXPECTED_MM_MAP_ERROR
#define ERROR_UNEXPECTED_MM_MAP_ERROR 557L
#endif
#ifndef ERROR_UNEXPECTED_MM_EXTEND_ERR
#define ERROR_UNEXPECTED_MM_EXTEND_ERR 558L
#endif
#ifndef ERROR_BAD_FUNCTION_TABLE
#define ERROR_BAD_FUNCTION_TABLE 559L
#endif
#ifndef ERROR_NO_GUID_TRANSLATION
#define ERROR_NO_GUID_TRANSLATION 560L
#endif
#ifndef ERROR_INVALID_LDT_SIZE
#define ERROR_INVALID_LDT_SIZE 561L
#endif
#ifndef ERROR_INVALID_LDT_OFFSET
#define ERROR_INVALID_LDT_OFFSET 563L
#endif
#ifndef ERROR_INVALID_LDT_DESCRIPTOR
#define ERROR_INVALID_LDT_DESCRIPTOR 564L
#endif
#ifndef ERROR_TOO_MANY_THREADS
#define ERROR_TOO_MANY_THREADS 565L
#endif
#ifndef ERROR_THREAD_NOT_IN_PROCESS
#define ERROR_THREAD_NOT_IN_PROCESS 566L
#endif
#ifndef ERROR_PAGEFILE_QUOTA_EXCEEDED
#define ERROR_PAGEFILE_QUOTA_EXCEEDED 567L
#endif
#ifndef ERROR_LOGON_SERVER_CONFLICT
#define ERROR_LOGON_SERVER_CONFLICT 568L
#endif
#ifndef ERROR_SYNCHRONIZATION_REQUIRED
#define ERROR_SYNCHRONIZATION_REQUIRED 569L
#endif
#ifndef ERROR_NET_OPEN_FAILED
#define ERROR_NET_OPEN_FAILED 570L
#endif
#ifndef ERROR_IO_PRIVILEGE_FAILED
#define ERROR_IO_PRIVILEGE_FAILED 571L
#endif
#ifndef ERROR_CONTROL_C_EXIT
#define ERROR_CONTROL_C_EXIT 572L
#endif
#ifndef ERROR_MISSING_SYSTEMFILE
#define ERROR_MISSING_SYSTEMFILE 573L
#endif
#ifndef ERROR_UNHANDLED_EXCEPTION
#define ERROR_UNHANDLED_EXCEPTION 574L
#endif
#ifndef ERROR_APP_INIT_FAILURE
#define ERROR_APP_INIT_FAILURE 575L
#endif
#ifndef ERROR_PAGEFILE_CREATE_FAILED
#define ERROR_PAGEFILE_CREATE_FAILED 576L
#endif
#ifndef ERROR_INVALID_IMAGE_HASH
#define ERROR_INVALID_IMAGE_HASH 577L
#endif
#ifndef ERROR_NO_PAGEFILE
#define ERROR_NO_PAGEFILE 578L
#endif
#ifndef ERROR_ILLEGAL_FLOAT_CONTEXT
#define ERROR_ILLEGAL_FLOAT_CONTEXT 579L
#endif
#ifndef ERROR_NO_EVENT_PAIR
#define ERROR_NO_EVENT_PAIR 580L
#endif
#ifndef ERROR_DOMAIN_CTRLR_CONFIG_ERROR
#define ERROR_DOMAIN_CTRLR_CONFIG_ERROR 581L
#endif
#ifndef ERROR_ILLEGAL_CHARACTER
#define ERROR_ILLEGAL_CHARACTER 582L
#endif
#ifndef ERROR_UNDEFINED_CHARACTER
#define ERROR_UNDEFINED_CHARACTER 583L
#endif
#ifndef ERROR_FLOPPY_VOLUME
#define ERROR_FLOPPY_VOLUME 584L
#endif
#ifndef ERROR_BIOS_FAILED_TO_CONNECT_INTERRUPT
#define ERROR_BIOS_FAILED_TO_CONNECT_INTERRUPT 585L
#endif
#ifndef ERROR_BACKUP_CONTROLLER
#define ERROR_BACKUP_CONTROLLER 586L
#endif
#ifndef ERROR_MUTANT_LIMIT_EXCEEDED
#define ERROR_MUTANT_LIMIT_EXCEEDED 587L
#endif
#ifndef ERROR_FS_DRIVER_REQUIRED
#define ERROR_FS_DRIVER_REQUIRED 588L
#endif
#ifndef ERROR_CANNOT_LOAD_REGISTRY_FILE
#define ERROR_CANNOT_LOAD_REGISTRY_FILE 589L
#endif
#ifndef ERROR_DEBUG_ATTACH_FAILED
#define ERROR_DEBUG_ATTACH_FAILED 590L
#endif
#ifndef ERROR_SYSTEM_PROCESS_TERMINATED
#define ERROR_SYSTEM_PROCESS_TERMINATED 591L
#endif
#ifndef ERROR_DATA_NOT_ACCEPTED
#define ERROR_DATA_NOT_ACCEPTED 592L
#endif
#ifndef ERROR_VDM_HARD_ERROR
#define ERROR_VDM_HARD_ERROR 593L
#endif
#ifndef ERROR_DRIVER_CANCEL_TIMEOUT
#define ERROR_DRIVER_CANCEL_TIMEOUT 594L
#endif
#ifndef ERROR_REPLY_MESSAGE_MISMATCH
#define ERROR_REPLY_MESSAGE_MISMATCH 595L
#endif
#ifndef ERROR_LOST_WRITEBEHIND_DATA
#define ERROR_LOST_WRITEBEHIND_DATA 596L
#endif
#ifndef ERROR_CLIENT_SERVER_PARAMETERS_INVALID
#define ERROR_CLIENT_SERVER_PARAMETERS_INVALID 597L
#endif
#ifndef ERROR_NOT_TINY_STREAM
#define ERROR_NOT_TINY_STREAM 598L
#endif
#ifndef ERROR_STACK_OVERFLOW_READ
#define ERROR_STACK_OVERFLOW_READ 599L
#endif
#ifndef ERROR_CONVERT_TO_LARGE
#define ERROR_CONVERT_TO_LARGE 600L
#endif
#ifndef ERROR_FOUND_OUT_OF_SCOPE
#define ERROR_FOUND_OUT_OF_SCOPE 601L
#endif
#ifndef ERROR_ALLOCATE_BUCKET
#define ERROR_ALLOCATE_BUCKET 602L
#endif
#ifndef ERROR_MARSHALL_OVERFLOW
#define ERROR_MARSHALL_OVERFLOW 603L
#endif
#ifndef ERROR_INVALID_VARIANT
#define ERROR_INVALID_VARIANT 604L
#endif
#ifndef ERROR_BAD_COMPRESSION_BUFFER
#define ERROR_BAD_COMPRESSION_BUFFER 605L
#endif
#ifndef ERROR_AUDIT_FAILED
#define ERROR_AUDIT_FAILED 606L
#endif
#ifndef ERROR_TIMER_RESOLUTION_NOT_SET
#define ERROR_TIMER_RESOLUTION_NOT_SET 607L
#endif
#ifndef ERROR_INSUFFICIENT_LOGON_INFO
#define ERROR_INSUFFICIENT_LOGON_INFO 608L
#endif
#ifndef ERROR_BAD_DLL_ENTRYPOINT
#define ERROR_BAD_DLL_ENTRYPOINT 609L
#endif
#ifndef ERROR_BAD_SERVICE_ENTRYPOINT
#define ERROR_BAD_SERVICE_ENTRYPOINT 610L
#endif
#ifndef ERROR_IP_ADDRESS_CONFLICT1
#define ERROR_IP_ADDRESS_CONFLICT1 611L
#endif
#ifndef ERROR_IP_ADDRESS_CONFLICT2
#define ERROR_IP_ADDRESS_CONFLICT2 612L
#endif
#ifndef ERROR_REGISTRY_QUOTA_LIMIT
#define ERROR_REGISTRY_QUOTA_LIMIT 613L
#endif
#ifndef ERROR_NO_CALLBACK_ACTIVE
#define ERROR_NO_CALLBACK_ACTIVE 614L
#endif
#ifndef ERROR_PWD_TOO_SHORT
#define ERROR_PWD_TOO_SHORT 615L
#endif
#ifndef ERROR_PWD_TOO_RECENT
#define ERROR_PWD_TOO_RECENT 616L
#endif
#ifndef ERROR_PWD_HISTORY_CONFLICT
#define ERROR_PWD_HISTORY_CONFLICT 617L
#endif
#ifndef ERROR_UNSUPPORTED_COMPRESSION
#define ERROR_UNSUPPORTED_COMPRESSION 618L
#endif
#ifndef ERROR_INVALID_HW_PROFILE
#define ERROR_INVALID_HW_PROFILE 619L
#endif
#ifndef ERROR_INVALID_PLUGPLAY_DEVICE_PATH
#define ERROR_INVALID_PLUGPLAY_DEVICE_PATH 620L
#endif
#ifndef ERROR_QUOTA_LIST_INCONSISTENT
#define ERROR_QUOTA_LIST_INCONSISTENT 621L
#endif
#ifndef ERROR_EVALUATION_EXPIRATION
#define ERROR_EVALUATION_EXPIRATION 622L
#endif
#ifndef ERROR_ILLEGAL_DLL_RELOCATION
#define ERROR_ILLEGAL_DLL_RELOCATION 623L
#endif
#ifndef ERROR_DLL_INIT_FAILED_LOGOFF
#define ERROR_DLL_INIT_FAILED_LOGOFF 624L
#endif
#ifndef ERROR_VALIDATE_CONTINUE
#define ERROR_VALIDATE_CONTINUE 625L
#endif
#ifndef ERROR_NO_MORE_MATCHES
#define ERROR_NO_MORE_MATCHES 626L
#endif
#ifndef ERROR_RANGE_LIST_CONFLICT
#define ERROR_RANGE_LIST_CONFLICT 627L
#endif
#ifndef ERROR_SERVER_SID_MISMATCH
#define ERROR_SERVER_SID_MISMATCH 628L
#endif
#ifndef ERROR_CANT_ENABLE_DENY_ONLY
#define ERROR_CANT_ENABLE_DENY_ONLY 629L
#endif
#ifndef ERROR_FLOAT_MULTIPLE_FAULTS
#define ERROR_FLOAT_MULTIPLE_FAULTS 630L
#endif
#ifndef ERROR_FLOAT_MULTIPLE_TRAPS
#define ERROR_FLOAT_MULTIPLE_TRAPS 631L
#endif
#ifndef ERROR_NOINTERFACE
#define ERROR_NOINTERFACE 632L
#endif
#ifndef ERROR_DRIVER_FAILED_SLEEP
#define ERROR_DRIVER_FAILED_SLEEP 633L
#endif
#ifndef ERROR_CORRUPT_SYSTEM_FILE
#define ERROR_CORRUPT_SYSTEM_FILE 634L
#endif
#ifndef ERROR_COMMITMENT_MINIMUM
#define ERROR_COMMITMENT_MINIMUM 635L
#endif
#ifndef ERROR_PNP_RESTART_ENUMERATION
#define ERROR_PNP_RESTART_ENUMERATION 636L
#endif
#ifndef ERROR_SYSTEM_IMAGE_BAD_SIGNATURE
#define ERROR_SYSTEM_IMAGE_BAD_SIGNATURE 637L
#endif
#ifndef ERROR_PNP_REBOOT_REQUIRED
#define ERROR_PNP_REBOOT_REQUIRED 638L
#endif
#ifndef ERROR_INSUFFICIENT_POWER
#define ERROR_INSUFFICIENT_POWER 639L
#endif
#ifndef ERROR_MULTIPLE_FAULT_VIOLATION
#define ERROR_MULTIPLE_FAULT_VIOLATION 640L
#endif
#ifndef ERROR_SYSTEM_SHUTDOWN
#define ERROR_SYSTEM_SHUTDOWN 641L
#endif
#ifndef ERROR_PORT_NOT_SET
#define ERROR_PORT_NOT_SET 642L
#endif
#ifndef ERROR_DS_VERSION_CHECK_FAILURE
#define ERROR_DS_VERSION_CHECK_FAILURE 643L
#endif
#ifndef ERROR_RANGE_NOT_FOUND
#define ERROR_RANGE_NOT_FOUND 644L
#endif
#ifndef ERROR_NOT_SAFE_MODE_DRIVER
#define ERROR_NOT_SAFE_MODE_DRIVER 646L
#endif
#ifndef ERROR_FAILED_DRIVER_ENTRY
#define ERROR_FAILED_DRIVER_ENTRY 647L
#endif
#ifndef ERROR_DEVICE_ENUMERATION_ERROR
#define ERROR_DEVICE_ENUMERATION_ERROR 648L
#endif
#ifndef ERROR_MOUNT_POINT_NOT_RESOLVED
#define ERROR_MOUNT_POINT_NOT_RESOLVED 649L
#endif
#ifndef ERROR_INVALID_DEVICE_OBJECT_PARAMETER
#define ERROR_INVALID_DEVICE_OBJECT_PARAMETER 650L
#endif
#ifndef ERROR_MCA_OCCURED
#define ERROR_MCA_OCCURED 651L
#endif
#ifndef ERROR_DRIVER_DATABASE_ERROR
#define ERROR_DRIVER_DATABASE_ERROR 652L
#endif
#ifndef ERROR_SYSTEM_HIVE_TOO_LARGE
#define ERROR_SYSTEM_HIVE_TOO_LARGE 653L
#endif
#ifndef ERROR_DRIVER_FAILED_PRIOR_UNLOAD
#define ERROR_DRIVER_FAILED_PRIOR_UNLOAD 654L
#endif
#ifndef ERROR_VOLSNAP_PREPARE_HIBERNATE
#define ERROR_VOLSNAP_PREPARE_HIBERNATE 655L
#endif
#ifndef ERROR_HIBERNATION_FAILURE
#define ERROR_HIBERNATION_FAILURE 656L
#endif
#ifndef ERROR_PWD_TOO_LONG
#define ERROR_PWD_TOO_LONG 657L
#endif
#ifndef ERROR_FILE_SYSTEM_LIMITATION
#define ERROR_FILE_SYSTEM_LIMITATION 665L
#endif
#ifndef ERROR_ASSERTION_FAILURE
#define ERROR_ASSERTION_FAILURE 668L
#endif
#ifndef ERROR_ACPI_ERROR
#define ERROR_ACPI_ERROR 669L
#endif
#ifndef ERROR_WOW_ASSERTION
#define ERROR_WOW_ASSERTION 670L
#endif
#ifndef ERROR_PNP_BAD_MPS_TABLE
#define ERROR_PNP_BAD_MPS_TABLE 671L
#endif
#ifndef ERROR_PNP_TRANSLATION_FAILED
#define ERROR_PNP_TRANSLATION_FAILED 672L
#endif
#ifndef ERROR_PNP_IRQ_TRANSLATION_FAILED
#define ERROR_PNP_IRQ_TRANSLATION_FAILED 673L
#endif
#ifndef ERROR_PNP_INVALID_ID
#define ERROR_PNP_INVALID_ID 674L
#endif
#ifndef ERROR_WAKE_SYSTEM_DEBUGGER
#define ERROR_WAKE_SYSTEM_DEBUGGER 675L
#endif
#ifndef ERROR_HANDLES_CLOSED
#define ERROR_HANDLES_CLOSED 676L
#endif
#ifndef ERROR_EXTRANEOUS_INFORMATION
#define ERROR_EXTRANEOUS_INFORMATION 677L
#endif
#ifndef ERROR_RXACT_COMMIT_NECESSARY
#define ERROR_RXACT_COMMIT_NECESSARY 678L
#endif
#ifndef ERROR_MEDIA_CHECK
#define ERROR_MEDIA_CHECK 679L
#endif
#ifndef ERROR_GUID_SUBSTITUTION_MADE
#define ERROR_GUID_SUBSTITUTION_MADE 680L
#endif
#ifndef ERROR_STOPPED_ON_SYMLINK
#define ERROR_STOPPED_ON_SYMLINK 681L
#endif
#ifndef ERROR_LONGJUMP
#define ERROR_LONGJUMP 682L
#endif
#ifndef ERROR_PLUGPLAY_QUERY_VETOED
#define ERROR_PLUGPLAY_QUERY_VETOED 683L
#endif
#ifndef ERROR_UNWIND_CONSOLIDATE
#define ERROR_UNWIND_CONSOLIDATE 684L
#endif
#ifndef ERROR_REGISTRY_HIVE_RECOVERED
#define ERROR_REGISTRY_HIVE_RECOVERED 685L
#endif
#ifndef ERROR_DLL_MIGHT_BE_INSECURE
#define ERROR_DLL_MIGHT_BE_INSECURE 686L
#endif
#ifndef ERROR_DLL_MIGHT_BE_INCOMPATIBLE
#define ERROR_DLL_MIGHT_BE_INCOMPATIBLE 687L
#endif
#ifndef ERROR_DBG_EXCEPTION_NOT_HANDLED
#define ERROR_DBG_EXCEPTION_NOT_HANDLED 688L
#endif
#ifndef ERROR_DBG_REPLY_LATER
#define ERROR_DBG_REPLY_LATER 689L
#endif
#ifndef ERROR_DBG_UNABLE_TO_PROVIDE_HANDLE
#define ERROR_DBG_UNABLE_TO_PROVIDE_HANDLE 690L
#endif
#ifndef ERROR_DBG_TERMINATE_THREAD
#define ERROR_DBG_TERMINATE_THREAD 691L
#endif
#ifndef ERROR_DBG_TERMINATE_PROCESS
#define ERROR_DBG_TERMINATE_PROCESS 692L
#endif
#ifndef ERROR_DBG_CONTROL_C
#define ERROR_DBG_CONTROL_C 693L
#endif
#ifndef ERROR_DBG_PRINTEXCEPTION_C
#define ERROR_DBG_PRINTEXCEPTION_C 694L
#endif
#ifndef ERROR_DBG_RIPEXCEPTION
#define ERROR_DBG_RIPEXCEPTION 695L
#endif
#ifndef ERROR_DBG_CONTROL_BREAK
#define ERROR_DBG_CONTROL_BREAK 696L
#endif
#ifndef ERROR_DBG_COMMAND_EXCEPTION
#define ERROR_DBG_COMMAND_EXCEPTION 697L
#endif
#ifndef ERROR_OBJECT_NAME_EXISTS
#define ERROR_OBJECT_NAME_EXISTS 698L
#endif
#ifndef ERROR_THREAD_WAS_SUSPENDED
#define ERROR_THREAD_WAS_SUSPENDED 699L
#endif
#ifndef ERROR_IMAGE_NOT_AT_BASE
#define ERROR_IMAGE_NOT_AT_BASE 700L
#endif
#ifndef ERROR_RXACT_STATE_CREATED
#define ERROR_RXACT_STATE_CREATED 701L
#endif
#ifndef ERROR_SEGMENT_NOTIFICATION
#define ERROR_SEGMENT_NOTIFICATION 702L
#endif
#ifndef ERROR_BAD_CURRENT_DIRECTORY
#define ERROR_BAD_CURRENT_DIRECTORY 703L
#endif
#ifndef ERROR_FT_READ_RECOVERY_FROM_BACKUP
#define ERROR_FT_READ_RECOVERY_FROM_BACKUP 704L
#endif
#ifndef ERROR_FT_WRITE_RECOVERY
#define ERROR_FT_WRITE_RECOVERY 705L
#endif
#ifndef ERROR_IMAGE_MACHINE_TYPE_MISMATCH
#define ERROR_IMAGE_MACHINE_TYPE_MISMATCH 706L
#endif
#ifndef ERROR_RECEIVE_PARTIAL
#define ERROR_RECEIVE_PARTIAL 707L
#endif
#ifndef ERROR_RECEIVE_EXPEDITED
#define ERROR_RECEIVE_EXPEDITED 708L
#endif
#ifndef ERROR_RECEIVE_PARTIAL_EXPEDITED
#define ERROR_RECEIVE_PARTIAL_EXPEDITED 709L
#endif
#ifndef ERROR_EVENT_DONE
#define ERROR_EVENT_DONE 710L
#endif
#ifndef ERROR_EVENT_PENDING
#define ERROR_EVENT_PENDING 711L
#endif
#ifndef ERROR_CHECKING_FILE_SYSTEM
#define ERROR_CHECKING_FILE_SYSTEM 712L
#endif
#ifndef ERROR_FATAL_APP_EXIT
#define ERROR_FATAL_APP_EXIT 713L
#endif
#ifndef ERROR_PREDEFINED_HANDLE
#define ERROR_PREDEFINED_HANDLE 714L
#endif
#ifndef ERROR_WAS_UNLOCKED
#define ERROR_WAS_UNLOCKED 715L
#endif
#ifndef ERROR_SERVICE_NOTIFICATION
#define ERROR_SERVICE_NOTIFICATION 716L
#endif
#ifndef ERROR_WAS_LOCKED
#define ERROR_WAS_LOCKED 717L
#endif
#ifndef ERROR_LOG_HARD_ERROR
#define ERROR_LOG_HARD_ERROR 718L
#endif
#ifndef ERROR_ALREADY_WIN32
#define ERROR_ALREADY_WIN32 719L
#endif
#ifndef ERROR_IMAGE_MACHINE_TYPE_MISMATCH_EXE
#define ERROR_IMAGE_MACHINE_TYPE_MISMATCH_EXE 720L
#endif
#ifndef ERROR_NO_YIELD_PERFORMED
#define ERROR_NO_YIELD_PERFORMED 721L
#endif
#ifndef ERROR_TIMER_RESUME_IGNORED
#define ERROR_TIMER_RESUME_IGNORED 722L
#endif
#ifndef ERROR_ARBITRATION_UNHANDLED
#define ERROR_ARBITRATION_UNHANDLED 723L
#endif
#ifndef ERROR_CARDBUS_NOT_SUPPORTED
#define ERROR_CARDBUS_NOT_SUPPORTED 724L
#endif
#ifndef ERROR_MP_PROCESSOR_MISMATCH
#define ERROR_MP_PROCESSOR_MISMATCH 725L
#endif
#ifndef ERROR_HIBERNATED
#define ERROR_HIBERNATED 726L
#endif
#ifndef ERROR_RESUME_HIBERNATION
#define ERROR_RESUME_HIBERNATION 727L
#endif
#ifndef ERROR_FIRMWARE_UPDATED
#define ERROR_FIRMWARE_UPDATED 728L
#endif
#ifndef ERROR_DRIVERS_LEAKING_LOCKED_PAGES
#define ERROR_DRIVERS_LEAKING_LOCKED_PAGES 729L
#endif
#ifndef ERROR_WAKE_SYSTEM
#define ERROR_WAKE_SYSTEM 730L
#endif
#ifndef ERROR_WAIT_1
#define ERROR_WAIT_1 731L
#endif
#ifndef ERROR_WAIT_2
#define ERROR_WAIT_2 732L
#endif
#ifndef ERROR_WAIT_3
#define ERROR_WAIT_3 733L
#endif
#ifndef ERROR_WAIT_63
#define ERROR_WAIT_63 734L
#endif
#ifndef ERROR_ABANDONED_WAIT_0
#define ERROR_ABANDONED_WAIT_0 735L
#endif
#ifndef ERROR_ABANDONED_WAIT_63
#define ERROR_ABANDONED_WAIT_63 736L
#endif
#ifndef ERROR_USER_APC
#define ERROR_USER_APC 737L
#endif
#ifndef ERROR_KERNEL_APC
#define ERROR_KERNEL_APC 738L
#endif
#ifndef ERROR_ALERTED
#define ERROR_ALERTED 739L
#endif
#ifndef ERROR_ELEVATION_REQUIRED
#define ERROR_ELEVATION_REQUIRED 740L
#endif
#ifndef ERROR_REPARSE
#define ERROR_REPARSE 741L
#endif
#ifndef ERROR_OPLOCK_BREAK_IN_PROGRESS
#define ERROR_OPLOCK_BREAK_IN_PROGRESS 742L
#endif
#ifndef ERROR_VOLUME_MOUNTED
#define ERROR_VOLUME_MOUNTED 743L
#endif
#ifndef ERROR_RXACT_COMMITTED
#define ERROR_RXACT_COMMITTED 744L
#endif
#ifndef ERROR_NOTIFY_CLEANUP
#define ERROR_NOTIFY_CLEANUP 745L
#endif
#ifndef ERROR_PRIMARY_TRANSPORT_CONNECT_FAILED
#define ERROR_PRIMARY_TRANSPORT_CONNECT_FAILED 746L
#endif
#ifndef ERROR_PAGE_FAULT_TRANSITION
#define ERROR_PAGE_FAULT_TRANSITION 747L
#endif
#ifndef ERROR_PAGE_FAULT_DEMAND_ZERO
#define ERROR_PAGE_FAULT_DEMAND_ZERO 748L
#endif
#ifndef ERROR_PAGE_FAULT_COPY_ON_WRITE
#define ERROR_PAGE_FAULT_COPY_ON_WRITE 749L
#endif
#ifndef ERROR_PAGE_FAULT_GUARD_PAGE
#define ERROR_PAGE_FAULT_GUARD_PAGE 750L
#endif
#ifndef ERROR_PAGE_FAULT_PAGING_FILE
#define ERROR_PAGE_FAULT_PAGING_FILE 751L
#endif
#ifndef ERROR_CACHE_PAGE_LOCKED
#define ERROR_CACHE_PAGE_LOCKED 752L
#endif
#ifndef ERROR_CRASH_DUMP
#define ERROR_CRASH_DUMP 753L
#endif
#ifndef ERROR_BUFFER_ALL_ZEROS
#define ERROR_BUFFER_ALL_ZEROS 754L
#endif
#ifndef ERROR_REPARSE_OBJECT
#define ERROR_REPARSE_OBJECT 755L
#endif
#ifndef ERROR_RESOURCE_REQUIREMENTS_CHANGED
#define ERROR_RESOURCE_REQUIREMENTS_CHANGED 756L
#endif
#ifndef ERROR_TRANSLATION_COMPLETE
#define ERROR_TRANSLATION_COMPLETE 757L
#endif
#ifndef ERROR_NOTHING_TO_TERMINATE
#define ERROR_NOTHING_TO_TERMINATE 758L
#endif
#ifndef ERROR_PROCESS_NOT_IN_JOB
#define ERROR_PROCESS_NOT_IN_JOB 759L
#endif
#ifndef ERROR_PROCESS_IN_JOB
#define ERROR_PROCESS_IN_JOB 760L
#endif
#ifndef ERROR_VOLSNAP_HIBERNATE_READY
#define ERROR_VOLSNAP_HIBERNATE_READY 761L
#endif
#ifndef ERROR_FSFILTER_OP_COMPLETED_SUCCESSFULLY
#define ERROR_FSFILTER_OP_COMPLETED_SUCCESSFULLY 762L
#endif
#ifndef ERROR_INTERRUPT_VECTOR_ALREADY_CONNECTED
#define ERROR_INTERRUPT_VECTOR_ALREADY_CONNECTED 763L
#endif
#ifndef ERROR_INTERRUPT_STILL_CONNECTED
#define ERROR_INTERRUPT_STILL_CONNECTED 764L
#endif
#ifndef ERROR_WAIT_FOR_OPLOCK
#define ERROR_WAIT_FOR_OPLOCK 765L
#endif
#ifndef ERROR_DBG_EXCEPTION_HANDLED
#define ERROR_DBG_EXCEPTION_HANDLED 766L
#endif
#ifndef ERROR_DBG_CONTINUE
#define ERROR_DBG_CONTINUE 767L
#endif
#ifndef ERROR_CALLBACK_POP_STACK
#define ERROR_CALLBACK_POP_STACK 768L
#endif
#ifndef ERROR_COMPRESSION_DISABLED
#define ERROR_COMPRESSION_DISABLED 769L
#endif
#ifndef ERROR_CANTFETCHBACKWARDS
#define ERROR_CANTFETCHBACKWARDS 770L
#endif
#ifndef ERROR_CANTSCROLLBACKWARDS
#define ERROR_CANTSCROLLBACKWARDS 771L
#endif
#ifndef ERROR_ROWSNOTRELEASED
#define ERROR_ROWSNOTRELEASED 772L
#endif
#ifndef ERROR_BAD_ACCESSOR_FLAGS
#define ERROR_BAD_ACCESSOR_FLAGS 773L
#endif
#ifndef ERROR_ERRORS_ENCOUNTERED
#define ERROR_ERRORS_ENCOUNTERED 774L
#endif
#ifndef ERROR_NOT_CAPABLE
#define ERROR_NOT_CAPABLE 775L
#endif
#ifndef ERROR_REQUEST_OUT_OF_SEQUENCE
#define ERROR_REQUEST_OUT_OF_SEQUENCE 776L
#endif
#ifndef ERROR_VERSION_PARSE_ERROR
#define ERROR_VERSION_PARSE_ERROR 777L
#endif
#ifndef ERROR_BADSTARTPOSITION
#define ERROR_BADSTARTPOSITION 778L
#endif
#ifndef ERROR_MEMORY_HARDWARE
#define ERROR_MEMORY_HARDWARE 779L
#endif
#ifndef ERROR_DISK_REPAIR_DISABLED
#define ERROR_DISK_REPAIR_DISABLED 780L
#endif
#ifndef ERROR_INSUFFICIENT_RESOURCE_FOR_SPECIFIED_SHARED_SECTION_SIZE
#define ERROR_INSUFFICIENT_RESOURCE_FOR_SPECIFIED_SHARED_SECTION_SIZE 781L
#endif
#ifndef ERROR_SYSTEM_POWERSTATE_TRANSITION
#define ERROR_SYSTEM_POWERSTATE_TRANSITION 782L
#endif
#ifndef ERROR_SYSTEM_POWERSTATE_COMPLEX_TRANSITION
#define ERROR_SYSTEM_POWERSTATE_COMPLEX_TRANSITION 783L
#endif
#ifndef ERROR_MCA_EXCEPTION
#define ERROR_MCA_EXCEPTION 784L
#endif
#ifndef ERROR_ACCESS_AUDIT_BY_POLICY
#define ERROR_ACCESS_AUDIT_BY_POLICY 785L
#endif
#ifndef ERROR_ACCESS_DISABLED_NO_SAFER_UI_BY_POLICY
#define ERROR_ACCESS_DISABLED_NO_SAFER_UI_BY_POLICY 786L
#endif
#ifndef ERROR_ABANDON_HIBERFILE
#define ERROR_ABANDON_HIBERFILE 787L
#endif
#ifndef ERROR_LOST_WRITEBEHIND_DATA_NETWORK_DISCONNECTED
#define ERROR_LOST_WRITEBEHIND_DATA_NETWORK_DISCONNECTED 788L
#endif
#ifndef ERROR_LOST_WRITEBEHIND_DATA_NETWORK_SERVER_ERROR
#define ERROR_LOST_WRITEBEHIND_DATA_NETWORK_SERVER_ERROR 789L
#endif
#ifndef ERROR_LOST_WRITEBEHIND_DATA_LOCAL_DISK_ERROR
#define ERROR_LOST_WRITEBEHIND_DATA_LOCAL_DISK_ERROR 790L
#endif
#ifndef ERROR_BAD_MCFG_TABLE
#define ERROR_BAD_MCFG_TABLE 791L
#endif
#ifndef ERROR_DISK_REPAIR_REDIRECTED
#define ERROR_DISK_REPAIR_REDIRECTED 792L
#endif
#ifndef ERROR_DISK_REPAIR_UNSUCCESSFUL
#define ERROR_DISK_REPAIR_UNSUCCESSFUL 793L
#endif
#ifndef ERROR_CORRUPT_LOG_OVERFULL
#define ERROR_CORRUPT_LOG_OVERFULL 794L
#endif
#ifndef ERROR_CORRUPT_LOG_CORRUPTED
#define ERROR_CORRUPT_LOG_CORRUPTED 795L
#endif
#ifndef ERROR_CORRUPT_LOG_UNAVAILABLE
#define ERROR_CORRUPT_LOG_UNAVAILABLE 796L
#endif
#ifndef ERROR_CORRUPT_LOG_DELETED_FULL
#define ERROR_CORRUPT_LOG_DELETED_FULL 797L
#endif
#ifndef ERROR_CORRUPT_LOG_CLEARED
#define ERROR_CORRUPT_LOG_CLEARED 798L
#endif
#ifndef ERROR_ORPHAN_NAME_EXHAUSTED
#define ERROR_ORPHAN_NAME_EXHAUSTED 799L
#endif
#ifndef ERROR_OPLOCK_SWITCHED_TO_NEW_HANDLE
#define ERROR_OPLOCK_SWITCHED_TO_NEW_HANDLE 800L
#endif
#ifndef ERROR_CANNOT_GRANT_REQUESTED_OPLOCK
#define ERROR_CANNOT_GRANT_REQUESTED_OPLOCK 801L
#endif
#ifndef ERROR_CANNOT_BREAK_OPLOCK
#define ERROR_CANNOT_BREAK_OPLOCK 802L
#endif
#ifndef ERROR_OPLOCK_HANDLE_CLOSED
#define ERROR_OPLOCK_HANDLE_CLOSED 803L
#endif
#ifndef ERROR_NO_ACE_CONDITION
#define ERROR_NO_ACE_CONDITION 804L
#endif
#ifndef ERROR_INVALID_ACE_CONDITION
#define ERROR_INVALID_ACE_CONDITION 805L
#endif
#ifndef ERROR_FILE_HANDLE_REVOKED
#define ERROR_FILE_HANDLE_REVOKED 806L
#endif
#ifndef ERROR_IMAGE_AT_DIFFERENT_BASE
#define ERROR_IMAGE_AT_DIFFERENT_BASE 807L
#endif
#ifndef ERROR_ENCRYPTED_IO_NOT_POSSIBLE
#define ERROR_ENCRYPTED_IO_NOT_POSSIBLE 808L
#endif
#ifndef ERROR_FILE_METADATA_OPTIMIZATION_IN_PROGRESS
#define ERROR_FILE_METADATA_OPTIMIZATION_IN_PROGRESS 809L
#endif
#ifndef ERROR_QUOTA_ACTIVITY
#define ERROR_QUOTA_ACTIVITY 810L
#endif
#ifndef ERROR_HANDLE_REVOKED
#define ERROR_HANDLE_REVOKED 811L
#endif
#ifndef ERROR_CALLBACK_INVOKE_INLINE
#define ERROR_CALLBACK_INVOKE_INLINE 812L
#endif
#ifndef ERROR_CPU_SET_INVALID
#define ERROR_CPU_SET_INVALID 813L
#endif
#ifndef ERROR_ENCLAVE_NOT_TERMINATED
#define ERROR_ENCLAVE_NOT_TERMINATED 814L
#endif
#ifndef ERROR_ENCLAVE_VIOLATION
#define ERROR_ENCLAVE_VIOLATION 815L
#endif
#ifndef ERROR_SERVER_TRANSPORT_CONFLICT
#define ERROR_SERVER_TRANSPORT_CONFLICT 816L
#endif
#ifndef ERROR_CERTIFICATE_VALIDATION_PREFERENCE_CONFLICT
#define ERROR_CERTIFICATE_VALIDATION_PREFERENCE_CONFLICT 817L
#endif
#ifndef ERROR_FT_READ_FROM_COPY_FAILURE
#define ERROR_FT_READ_FROM_COPY_FAILURE 818L
#endif
#ifndef ERROR_SECTION_DIRECT_MAP_ONLY
#define ERROR_SECTION_DIRECT_MAP_ONLY 819L
#endif
#ifndef ERROR_EA_ACCESS_DENIED
#define ERROR_EA_ACCESS_DENIED 994L
#endif
#ifndef ERROR_OPERATION_ABORTED
#define ERROR_OPERATION_ABORTED 995L
#endif
#ifndef ERROR_IO_INCOMPLETE
#define ERROR_IO_INCOMPLETE 996L
#endif
#ifndef ERROR_IO_PENDING
#define ERROR_IO_PENDING 997L
#endif
#ifndef ERROR_NOACCESS
#define ERROR_NOACCESS 998L
#endif
#ifndef ERROR_SWAPERROR
#define ERROR_SWAPERROR 999L
#endif
#ifndef ERROR_STACK_OVERFLOW
#define ERROR_STACK_OVERFLOW 1001L
#endif
#ifndef ERROR_INVALID_MESSAGE
#define ERROR_INVALID_MESSAGE 1002L
#endif
#ifndef ERROR_CAN_NOT_COMPLETE
#define ERROR_CAN_NOT_COMPLETE 1003L
#endif
#ifndef ERROR_INVALID_FLAGS
#define ERROR_INVALID_FLAGS 1004L
#endif
#ifndef ERROR_UNRECOGNIZED_VOLUME
#define ERROR_UNRECOGNIZED_VOLUME 1005L
#endif
#ifndef ERROR_FILE_INVALID
#define ERROR_FILE_INVALID 1006L
#endif
#ifndef ERROR_FULLSCREEN_MODE
#define ERROR_FULLSCREEN_MODE 1007L
#endif
#ifndef ERROR_NO_TOKEN
#define ERROR_NO_TOKEN 1008L
#endif
#ifndef ERROR_BADDB
#define ERROR_BADDB 1009L
#endif
#ifndef ERROR_BADKEY
#define ERROR_BADKEY 1010L
#endif
#ifndef ERROR_CANTOPEN
#define ERROR_CANTOPEN 1011L
#endif
#ifndef ERROR_CANTREAD
#define ERROR_CANTREAD 1012L
#endif
#ifndef ERROR_CANTWRITE
#define ERROR_CANTWRITE 1013L
#endif
#ifndef ERROR_REGISTRY_RECOVERED
#define ERROR_REGISTRY_RECOVERED 1014L
#endif
#ifndef ERROR_REGISTRY_CORRUPT
#define ERROR_REGISTRY_CORRUPT 1015L
#endif
#ifndef ERROR_REGISTRY_IO_FAILED
#define ERROR_REGISTRY_IO_FAILED 1016L
#endif
#ifndef ERROR_NOT_REGISTRY_FILE
#define ERROR_NOT_REGISTRY_FILE 1017L
#endif
#ifndef ERROR_KEY_DELETED
#define ERROR_KEY_DELETED 1018L
#endif
#ifndef ERROR_NO_LOG_SPACE
#define ERROR_NO_LOG_SPACE 1019L
#endif
#ifndef ERROR_KEY_HAS_CHILDREN
#define ERROR_KEY_HAS_CHILDREN 1020L
#endif
#ifndef ERROR_CHILD_MUST_BE_VOLATILE
#define ERROR_CHILD_MUST_BE_VOLATILE 1021L
#endif
#ifndef ERROR_NOTIFY_ENUM_DIR
#define ERROR_NOTIFY_ENUM_DIR 1022L
#endif
#ifndef ERROR_DEPENDENT_SERVICES_RUNNING
#define ERROR_DEPENDENT_SERVICES_RUNNING 1051L
#endif
#ifndef ERROR_INVALID_SERVICE_CONTROL
#define ERROR_INVALID_SERVICE_CONTROL 1052L
#endif
#ifndef ERROR_SERVICE_REQUEST_TIMEOUT
#define ERROR_SERVICE_REQUEST_TIMEOUT 1053L
#endif
#ifndef ERROR_SERVICE_NO_THREAD
#define ERROR_SERVICE_NO_THREAD 1054L
#endif
#ifndef ERROR_SERVICE_DATABASE_LOCKED
#define ERROR_SERVICE_DATABASE_LOCKED 1055L
#endif
#ifndef ERROR_SERVICE_ALREADY_RUNNING
#define ERROR_SERVICE_ALREADY_RUNNING 1056L
#endif
#ifndef ERROR_INVALID_SERVICE_ACCOUNT
#define ERROR_INVALID_SERVICE_ACCOUNT 1057L
#endif
#ifndef ERROR_SERVICE_DISABLED
#define ERROR_SERVICE_DISABLED 1058L
#endif
#ifndef ERROR_CIRCULAR_DEPENDENCY
#define ERROR_CIRCULAR_DEPENDENCY 1059L
#endif
#ifndef ERROR_SERVICE_DOES_NOT_EXIST
#define ERROR_SERVICE_DOES_NOT_EXIST 1060L
#endif
#ifndef ERROR_SERVICE_CANNOT_ACCEPT_CTRL
#define ERROR_SERVICE_CANNOT_ACCEPT_CTRL 1061L
#endif
#ifndef ERROR_SERVICE_NOT_ACTIVE
#define ERROR_SERVICE_NOT_ACTIVE 1062L
#endif
#ifndef ERROR_FAILED_SERVICE_CONTROLLER_CONNECT
#define ERROR_FAILED_SERVICE_CONTROLLER_CONNECT 1063L
#endif
#ifndef ERROR_EXCEPTION_IN_SERVICE
#define ERROR_EXCEPTION_IN_SERVICE 1064L
#endif
#ifndef ERROR_DATABASE_DOES_NOT_EXIST
#define ERROR_DATABASE_DOES_NOT_EXIST 1065L
#endif
#ifndef ERROR_SERVICE_SPECIFIC_ERROR
#define ERROR_SERVICE_SPECIFIC_ERROR 1066L
#endif
#ifndef ERROR_PROCESS_ABORTED
#define ERROR_PROCESS_ABORTED 1067L
#endif
#ifndef ERROR_SERVICE_DEPENDENCY_FAIL
#define ERROR_SERVICE_DEPENDENCY_FAIL 1068L
#endif
#ifndef ERROR_SERVICE_LOGON_FAILED
#define ERROR_SERVICE_LOGON_FAILED 1069L
#endif
#ifndef ERROR_SERVICE_START_HANG
#define ERROR_SERVICE_START_HANG 1070L
#endif
#ifndef ERROR_INVALID_SERVICE_LOCK
#define ERROR_INVALID_SERVICE_LOCK 1071L
#endif
#ifndef ERROR_SERVICE_MARKED_FOR_DELETE
#define ERROR_SERVICE_MARKED_FOR_DELETE 1072L
#endif
#ifndef ERROR_SERVICE_EXISTS
#define ERROR_SERVICE_EXISTS 1073L
#endif
#ifndef ERROR_ALREADY_RUNNING_LKG
#define ERROR_ALREADY_RUNNING_LKG 1074L
#endif
#ifndef ERROR_SERVICE_DEPENDENCY_DELETED
#define ERROR_SERVICE_DEPENDENCY_DELETED 1075L
#endif
#ifndef ERROR_BOOT_ALREADY_ACCEPTED
#define ERROR_BOOT_ALREADY_ACCEPTED 1076L
#endif
#ifndef ERROR_SERVICE_NEVER_STARTED
#define ERROR_SERVICE_NEVER_STARTED 1077L
#endif
#ifndef ERROR_DUPLICATE_SERVICE_NAME
#define ERROR_DUPLICATE_SERVICE_NAME 1078L
#endif
#ifndef ERROR_DIFFERENT_SERVICE_ACCOUNT
#define ERROR_DIFFERENT_SERVICE_ACCOUNT 1079L
#endif
#ifndef ERROR_CANNOT_DETECT_DRIVER_FAILURE
#define ERROR_CANNOT_DETECT_DRIVER_FAILURE 1080L
#endif
#ifndef ERROR_CANNOT_DETECT_PROCESS_ABORT
#define ERROR_CANNOT_DETECT_PROCESS_ABORT 1081L
#endif
#ifndef ERROR_NO_RECOVERY_PROGRAM
#define ERROR_NO_RECOVERY_PROGRAM 1082L
#endif
#ifndef ERROR_SERVICE_NOT_IN_EXE
#define ERROR_SERVICE_NOT_IN_EXE 1083L
#endif
#ifndef ERROR_NOT_SAFEBOOT_SERVICE
#define ERROR_NOT_SAFEBOOT_SERVICE 1084L
#endif
#ifndef ERROR_END_OF_MEDIA
#define ERROR_END_OF_MEDIA 1100L
#endif
#ifndef ERROR_FILEMARK_DETECTED
#define ERROR_FILEMARK_DETECTED 1101L
#endif
#ifndef ERROR_BEGINNING_OF_MEDIA
#define ERROR_BEGINNING_OF_MEDIA 1102L
#endif
#ifndef ERROR_SETMARK_DETECTED
#define ERROR_SETMARK_DETECTED 1103L
#endif
#ifndef ERROR_NO_DATA_DETECTED
#define ERROR_NO_DATA_DETECTED 1104L
#endif
#ifndef ERROR_PARTITION_FAILURE
#define ERROR_PARTITION_FAILURE 1105L
#endif
#ifndef ERROR_INVALID_BLOCK_LENGTH
#define ERROR_INVALID_BLOCK_LENGTH 1106L
#endif
#ifndef ERROR_DEVICE_NOT_PARTITIONED
#define ERROR_DEVICE_NOT_PARTITIONED 1107L
#endif
#ifndef ERROR_UNABLE_TO_LOCK_MEDIA
#define ERROR_UNABLE_TO_LOCK_MEDIA 1108L
#endif
#ifndef ERROR_UNABLE_TO_UNLOAD_MEDIA
#define ERROR_UNABLE_TO_UNLOAD_MEDIA 1109L
#endif
#ifndef ERROR_MEDIA_CHANGED
#define ERROR_MEDIA_CHANGED 1110L
#endif
#ifndef ERROR_BUS_RESET
#define ERROR_BUS_RESET 1111L
#endif
#ifndef ERROR_NO_MEDIA_IN_DRIVE
#define ERROR_NO_MEDIA_IN_DRIVE 1112L
#endif
#ifndef ERROR_NO_UNICODE_TRANSLATION
#define ERROR_NO_UNICODE_TRANSLATION 1113L
#endif
#ifndef ERROR_DLL_INIT_FAILED
#define ERROR_DLL_INIT_FAILED 1114L
#endif
#ifndef ERROR_SHUTDOWN_IN_PROGRESS
#define ERROR_SHUTDOWN_IN_PROGRESS 1115L
#endif
#ifndef ERROR_NO_SHUTDOWN_IN_PROGRESS
#define ERROR_NO_SHUTDOWN_IN_PROGRESS 1116L
#endif
#ifndef ERROR_IO_DEVICE
#define ERROR_IO_DEVICE 1117L
#endif
#ifndef ERROR_SERIAL_NO_DEVICE
#define ERROR_SERIAL_NO_DEVICE 1118L
#endif
#ifndef ERROR_IRQ_BUSY
#define ERROR_IRQ_BUSY 1119L
#endif
#ifndef ERROR_MORE_WRITES
#define ERROR_MORE_WRITES 1120L
#endif
#ifndef ERROR_COUNTER_TIMEOUT
#define ERROR_COUNTER_TIMEOUT 1121L
#endif
#ifndef ERROR_FLOPPY_ID_MARK_NOT_FOUND
#define ERROR_FLOPPY_ID_MARK_NOT_FOUND 1122L
#endif
#ifndef ERROR_FLOPPY_WRONG_CYLINDER
#define ERROR_FLOPPY_WRONG_CYLINDER 1123L
#endif
#ifndef ERROR_FLOPPY_UNKNOWN_ERROR
#define ERROR_FLOPPY_UNKNOWN_ERROR 1124L
#endif
#ifndef ERROR_FLOPPY_BAD_REGISTERS
#define ERROR_FLOPPY_BAD_REGISTERS 1125L
#endif
#ifndef ERROR_DISK_RECALIBRATE_FAILED
#define ERROR_DISK_RECALIBRATE_FAILED 1126L
#endif
#ifndef ERROR_DISK_OPERATION_FAILED
#define ERROR_DISK_OPERATION_FAILED 1127L
#endif
#ifndef ERROR_DISK_RESET_FAILED
#define ERROR_DISK_RESET_FAILED 1128L
#endif
#ifndef ERROR_EOM_OVERFLOW
#define ERROR_EOM_OVERFLOW 1129L
#endif
#ifndef ERROR_NOT_ENOUGH_SERVER_MEMORY
#define ERROR_NOT_ENOUGH_SERVER_MEMORY 1130L
#endif
#ifndef ERROR_POSSIBLE_DEADLOCK
#define ERROR_POSSIBLE_DEADLOCK 1131L
#endif
#ifndef ERROR_MAPPED_ALIGNMENT
#define ERROR_MAPPED_ALIGNMENT 1132L
#endif
#ifndef ERROR_SET_POWER_STATE_VETOED
#define ERROR_SET_POWER_STATE_VETOED 1140L
#endif
#ifndef ERROR_SET_POWER_STATE_FAILED
#define ERROR_SET_POWER_STATE_FAILED 1141L
#endif
#ifndef ERROR_TOO_MANY_LINKS
#define ERROR_TOO_MANY_LINKS 1142L
#endif
#ifndef ERROR_OLD_WIN_VERSION
#define ERROR_OLD_WIN_VERSION 1150L
#endif
#ifndef ERROR_APP_WRONG_OS
#define ERROR_APP_WRONG_OS 1151L
#endif
#ifndef ERROR_SINGLE_INSTANCE_APP
#define ERROR_SINGLE_INSTANCE_APP 1152L
#endif
#ifndef ERROR_RMODE_APP
#define ERROR_RMODE_APP 1153L
#endif
#ifndef ERROR_INVALID_DLL
#define ERROR_INVALID_DLL 1154L
#endif
#ifndef ERROR_NO_ASSOCIATION
#define ERROR_NO_ASSOCIATION 1155L
#endif
#ifndef ERROR_DDE_FAIL
#define ERROR_DDE_FAIL 1156L
#endif
#ifndef ERROR_DLL_NOT_FOUND
#define ERROR_DLL_NOT_FOUND 1157L
#endif
#ifndef ERROR_NO_MORE_USER_HANDLES
#define ERROR_NO_MORE_USER_HANDLES 1158L
#endif
#ifndef ERROR_MESSAGE_SYNC_ONLY
#define ERROR_MESSAGE_SYNC_ONLY 1159L
#endif
#ifndef ERROR_SOURCE_ELEMENT_EMPTY
#define ERROR_SOURCE_ELEMENT_EMPTY 1160L
#endif
#ifndef ERROR_DESTINATION_ELEMENT_FULL
#define ERROR_DESTINATION_ELEMENT_FULL 1161L
#endif
#ifndef ERROR_ILLEGAL_ELEMENT_ADDRESS
#define ERROR_ILLEGAL_ELEMENT_ADDRESS 1162L
#endif
#ifndef ERROR_MAGAZINE_NOT_PRESENT
#define ERROR_MAGAZINE_NOT_PRESENT 1163L
#endif
#ifndef ERROR_DEVICE_REINITIALIZATION_NEEDED
#define ERROR_DEVICE_REINITIALIZATION_NEEDED 1164L
#endif
#ifndef ERROR_DEVICE_REQUIRES_CLEANING
#define ERROR_DEVICE_REQUIRES_CLEANING 1165L
#endif
#ifndef ERROR_DEVICE_DOOR_OPEN
#define ERROR_DEVICE_DOOR_OPEN 1166L
#endif
#ifndef ERROR_DEVICE_NOT_CONNECTED
#define ERROR_DEVICE_NOT_CONNECTED 1167L
#endif
#ifndef ERROR_NOT_FOUND
#define ERROR_NOT_FOUND 1168L
#endif
#ifndef ERROR_NO_MATCH
#define ERROR_NO_MATCH 1169L
#endif
#ifndef ERROR_SET_NOT_FOUND
#define ERROR_SET_NOT_FOUND 1170L
#endif
#ifndef ERROR_POINT_NOT_FOUND
#define ERROR_POINT_NOT_FOUND 1171L
#endif
#ifndef ERROR_NO_TRACKING_SERVICE
#define ERROR_NO_TRACKING_SERVICE 1172L
#endif
#ifndef ERROR_NO_VOLUME_ID
#define ERROR_NO_VOLUME_ID 1173L
#endif
#ifndef ERROR_UNABLE_TO_REMOVE_REPLACED
#define ERROR_UNABLE_TO_REMOVE_REPLACED 1175L
#endif
#ifndef ERROR_UNABLE_TO_MOVE_REPLACEMENT
#define ERROR_UNABLE_TO_MOVE_REPLACEMENT 1176L
#endif
#ifndef ERROR_UNABLE_TO_MOVE_REPLACEMENT_2
#define ERROR_UNABLE_TO_MOVE_REPLACEMENT_2 1177L
#endif
#ifndef ERROR_JOURNAL_DELETE_IN_PROGRESS
#define ERROR_JOURNAL_DELETE_IN_PROGRESS 1178L
#endif
#ifndef ERROR_JOURNAL_NOT_ACTIVE
#define ERROR_JOURNAL_NOT_ACTIVE 1179L
#endif
#ifndef ERROR_POTENTIAL_FILE_FOUND
#define ERROR_POTENTIAL_FILE_FOUND 1180L
#endif
#ifndef ERROR_JOURNAL_ENTRY_DELETED
#define ERROR_JOURNAL_ENTRY_DELETED 1181L
#endif
#ifndef ERROR_PARTITION_TERMINATING
#define ERROR_PARTITION_TERMINATING 1184L
#endif
#ifndef ERROR_SHUTDOWN_IS_SCHEDULED
#define ERROR_SHUTDOWN_IS_SCHEDULED 1190L
#endif
#ifndef ERROR_SHUTDOWN_USERS_LOGGED_ON
#define ERROR_SHUTDOWN_USERS_LOGGED_ON 1191L
#endif
#ifndef ERROR_SHUTDOWN_DISKS_NOT_IN_MAINTENANCE_MODE
#define ERROR_SHUTDOWN_DISKS_NOT_IN_MAINTENANCE_MODE 1192L
#endif
#ifndef ERROR_BAD_DEVICE
#define ERROR_BAD_DEVICE 1200L
#endif
#ifndef ERROR_CONNECTION_UNAVAIL
#define ERROR_CONNECTION_UNAVAIL 1201L
#endif
#ifndef ERROR_DEVICE_ALREADY_REMEMBERED
#define ERROR_DEVICE_ALREADY_REMEMBERED 1202L
#endif
#ifndef ERROR_NO_NET_OR_BAD_PATH
#define ERROR_NO_NET_OR_BAD_PATH 1203L
#endif
#ifndef ERROR_BAD_PROVIDER
#define ERROR_BAD_PROVIDER 1204L
#endif
#ifndef ERROR_CANNOT_OPEN_PROFILE
#define ERROR_CANNOT_OPEN_PROFILE 1205L
#endif
#ifndef ERROR_BAD_PROFILE
#define ERROR_BAD_PROFILE 1206L
#endif
#ifndef ERROR_NOT_CONTAINER
#define ERROR_NOT_CONTAINER 1207L
#endif
#ifndef ERROR_EXTENDED_ERROR
#define ERROR_EXTENDED_ERROR 1208L
#endif
#ifndef ERROR_INVALID_GROUPNAME
#define ERROR_INVALID_GROUPNAME 1209L
#endif
#ifndef ERROR_INVALID_COMPUTERNAME
#define ERROR_INVALID_COMPUTERNAME 1210L
#endif
#ifndef ERROR_INVALID_EVENTNAME
#define ERROR_INVALID_EVENTNAME 1211L
#endif
#ifndef ERROR_INVALID_DOMAINNAME
#define ERROR_INVALID_DOMAINNAME 1212L
#endif
#ifndef ERROR_INVALID_SERVICENAME
#define ERROR_INVALID_SERVICENAME 1213L
#endif
#ifndef ERROR_INVALID_NETNAME
#define ERROR_INVALID_NETNAME 1214L
#endif
#ifndef ERROR_INVALID_SHARENAME
#define ERROR_INVALID_SHARENAME 1215L
#endif
#ifndef ERROR_INVALID_PASSWORDNAME
#define ERROR_INVALID_PASSWORDNAME 1216L
#endif
#ifndef ERROR_INVALID_MESSAGENAME
#define ERROR_INVALID_MESSAGENAME 1217L
#endif
#ifndef ERROR_INVALID_MESSAGEDEST
#define ERROR_INVALID_MESSAGEDEST 1218L
#endif
#ifndef ERROR_SESSION_CREDENTIAL_CONFLICT
#define ERROR_SESSION_CREDENTIAL_CONFLICT 1219L
#endif
#ifndef ERROR_REMOTE_SESSION_LIMIT_EXCEEDED
#define ERROR_REMOTE_SESSION_LIMIT_EXCEEDED 1220L
#endif
#ifndef ERROR_DUP_DOMAINNAME
#define ERROR_DUP_DOMAINNAME 1221L
#endif
#ifndef ERROR_NO_NETWORK
#define ERROR_NO_NETWORK 1222L
#endif
#ifndef ERROR_CANCELLED
#define ERROR_CANCELLED 1223L
#endif
#ifndef ERROR_USER_MAPPED_FILE
#define ERROR_USER_MAPPED_FILE 1224L
#endif
#ifndef ERROR_CONNECTION_REFUSED
#define ERROR_CONNECTION_REFUSED 1225L
#endif
#ifndef ERROR_GRACEFUL_DISCONNECT
#define ERROR_GRACEFUL_DISCONNECT 1226L
#endif
#ifndef ERROR_ADDRESS_ALREADY_ASSOCIATED
#define ERROR_ADDRESS_ALREADY_ASSOCIATED 1227L
#endif
#ifndef ERROR_ADDRESS_NOT_ASSOCIATED
#define ERROR_ADDRESS_NOT_ASSOCIATED 1228L
#endif
#ifndef ERROR_CONNECTION_INVALID
#define ERROR_CONNECTION_INVALID 1229L
#endif
#ifndef ERROR_CONNECTION_ACTIVE
#define ERROR_CONNECTION_ACTIVE 1230L
#endif
#ifndef ERROR_NETWORK_UNREACHABLE
#define ERROR_NETWORK_UNREACHABLE 1231L
#endif
#ifndef ERROR_HOST_UNREACHABLE
#define ERROR_HOST_UNREACHABLE 1232L
#endif
#ifndef ERROR_PROTOCOL_UNREACHABLE
#define ERROR_PROTOCOL_UNREACHABLE 1233L
#endif
#ifndef ERROR_PORT_UNREACHABLE
#define ERROR_PORT_UNREACHABLE 1234L
#endif
#ifndef ERROR_REQUEST_ABORTED
#define ERROR_REQUEST_ABORTED 1235L
#endif
#ifndef ERROR_CONNECTION_ABORTED
#define ERROR_CONNECTION_ABORTED 1236L
#endif
#ifndef ERROR_RETRY
#define ERROR_RETRY 1237L
#endif
#ifndef ERROR_CONNECTION_COUNT_LIMIT
#define ERROR_CONNECTION_COUNT_LIMIT 1238L
#endif
#ifndef ERROR_LOGIN_TIME_RESTRICTION
#define ERROR_LOGIN_TIME_RESTRICTION 1239L
#endif
#ifndef ERROR_LOGIN_WKSTA_RESTRICTION
#define ERROR_LOGIN_WKSTA_RESTRICTION 1240L
#endif
#ifndef ERROR_INCORRECT_ADDRESS
#define ERROR_INCORRECT_ADDRESS 1241L
#endif
#ifndef ERROR_ALREADY_REGISTERED
#define ERROR_ALREADY_REGISTERED 1242L
#endif
#ifndef ERROR_SERVICE_NOT_FOUND
#define ERROR_SERVICE_NOT_FOUND 1243L
#endif
#ifndef ERROR_NOT_AUTHENTICATED
#define ERROR_NOT_AUTHENTICATED 1244L
#endif
#ifndef ERROR_NOT_LOGGED_ON
#define ERROR_NOT_LOGGED_ON 1245L
#endif
#ifndef ERROR_CONTINUE
#define ERROR_CONTINUE 1246L
#endif
#ifndef ERROR_ALREADY_INITIALIZED
#define ERROR_ALREADY_INITIALIZED 1247L
#endif
#ifndef ERROR_NO_MORE_DEVICES
#define ERROR_NO_MORE_DEVICES 1248L
#endif
#ifndef ERROR_NO_SUCH_SITE
#define ERROR_NO_SUCH_SITE 1249L
#endif
#ifndef ERROR_DOMAIN_CONTROLLER_EXISTS
#define ERROR_DOMAIN_CONTROLLER_EXISTS 1250L
#endif
#ifndef ERROR_ONLY_IF_CONNECTED
#define ERROR_ONLY_IF_CONNECTED 1251L
#endif
#ifndef ERROR_OVERRIDE_NOCHANGES
#define ERROR_OVERRIDE_NOCHANGES 1252L
#endif
#ifndef ERROR_BAD_USER_PROFILE
#define ERROR_BAD_USER_PROFILE 1253L
#endif
#ifndef ERROR_NOT_SUPPORTED_ON_SBS
#define ERROR_NOT_SUPPORTED_ON_SBS 1254L
#endif
#ifndef ERROR_SERVER_SHUTDOWN_IN_PROGRESS
#define ERROR_SERVER_SHUTDOWN_IN_PROGRESS 1255L
#endif
#ifndef ERROR_HOST_DOWN
#define ERROR_HOST_DOWN 1256L
#endif
#ifndef ERROR_NON_ACCOUNT_SID
#define ERROR_NON_ACCOUNT_SID 1257L
#endif
#ifndef ERROR_NON_DOMAIN_SID
#define ERROR_NON_DOMAIN_SID 1258L
#endif
#ifndef ERROR_APPHELP_BLOCK
#define ERROR_APPHELP_BLOCK 1259L
#endif
#ifndef ERROR_ACCESS_DISABLED_BY_POLICY
#define ERROR_ACCESS_DISABLED_BY_POLICY 1260L
#endif
#ifndef ERROR_REG_NAT_CONSUMPTION
#define ERROR_REG_NAT_CONSUMPTION 1261L
#endif
#ifndef ERROR_CSCSHARE_OFFLINE
#define ERROR_CSCSHARE_OFFLINE 1262L
#endif
#ifndef ERROR_PKINIT_FAILURE
#define ERROR_PKINIT_FAILURE 1263L
#endif
#ifndef ERROR_SMARTCARD_SUBSYSTEM_FAILURE
#define ERROR_SMARTCARD_SUBSYSTEM_FAILURE 1264L
#endif
#ifndef ERROR_DOWNGRADE_DETECTED
#define ERROR_DOWNGRADE_DETECTED 1265L
#endif
#ifndef ERROR_MACHINE_LOCKED
#define ERROR_MACHINE_LOCKED 1271L
#endif
#ifndef ERROR_CALLBACK_SUPPLIED_INVALID_DATA
#define ERROR_CALLBACK_SUPPLIED_INVALID_DATA 1273L
#endif
#ifndef ERROR_SYNC_FOREGROUND_REFRESH_REQUIRED
#define ERROR_SYNC_FOREGROUND_REFRESH_REQUIRED 1274L
#endif
#ifndef ERROR_DRIVER_BLOCKED
#define ERROR_DRIVER_BLOCKED 1275L
#endif
#ifndef ERROR_INVALID_IMPORT_OF_NON_DLL
#define ERROR_INVALID_IMPORT_OF_NON_DLL 1276L
#endif
#ifndef ERROR_ACCESS_DISABLED_WEBBLADE
#define ERROR_ACCESS_DISABLED_WEBBLADE 1277L
#endif
#ifndef ERROR_ACCESS_DISABLED_WEBBLADE_TAMPER
#define ERROR_ACCESS_DISABLED_WEBBLADE_TAMPER 1278L
#endif
#ifndef ERROR_RECOVERY_FAILURE
#define ERROR_RECOVERY_FAILURE 1279L
#endif
#ifndef ERROR_ALREADY_FIBER
#define ERROR_ALREADY_FIBER 1280L
#endif
#ifndef ERROR_ALREADY_THREAD
#define ERROR_ALREADY_THREAD 1281L
#endif
#ifndef ERROR_STACK_BUFFER_OVERRUN
#define ERROR_STACK_BUFFER_OVERRUN 1282L
#endif
#ifndef ERROR_PARAMETER_QUOTA_EXCEEDED
#define ERROR_PARAMETER_QUOTA_EXCEEDED 1283L
#endif
#ifndef ERROR_DEBUGGER_INACTIVE
#define ERROR_DEBUGGER_INACTIVE 1284L
#endif
#ifndef ERROR_DELAY_LOAD_FAILED
#define ERROR_DELAY_LOAD_FAILED 1285L
#endif
#ifndef ERROR_VDM_DISALLOWED
#define ERROR_VDM_DISALLOWED 1286L
#endif
#ifndef ERROR_UNIDENTIFIED_ERROR
#define ERROR_UNIDENTIFIED_ERROR 1287L
#endif
#ifndef ERROR_INVALID_CRUNTIME_PARAMETER
#define ERROR_INVALID_CRUNTIME_PARAMETER 1288L
#endif
#ifndef ERROR_BEYOND_VDL
#define ERROR_BEYOND_VDL 1289L
#endif
#ifndef ERROR_INCOMPATIBLE_SERVICE_SID_TYPE
#define ERROR_INCOMPATIBLE_SERVICE_SID_TYPE 1290L
#endif
#ifndef ERROR_DRIVER_PROCESS_TERMINATED
#define ERROR_DRIVER_PROCESS_TERMINATED 1291L
#endif
#ifndef ERROR_IMPLEMENTATION_LIMIT
#define ERROR_IMPLEMENTATION_LIMIT 1292L
#endif
#ifndef ERROR_PROCESS_IS_PROTECTED
#define ERROR_PROCESS_IS_PROTECTED 1293L
#endif
#ifndef ERROR_SERVICE_NOTIFY_CLIENT_LAGGING
#define ERROR_SERVICE_NOTIFY_CLIENT_LAGGING 1294L
#endif
#ifndef ERROR_DISK_QUOTA_EXCEEDED
#define ERROR_DISK_QUOTA_EXCEEDED 1295L
#endif
#ifndef ERROR_CONTENT_BLOCKED
#define ERROR_CONTENT_BLOCKED 1296L
#endif
#ifndef ERROR_INCOMPATIBLE_SERVICE_PRIVILEGE
#define ERROR_INCOMPATIBLE_SERVICE_PRIVILEGE 1297L
#endif
#ifndef ERROR_APP_HANG
#define ERROR_APP_HANG 1298L
#endif
#ifndef ERROR_INVALID_LABEL
#define ERROR_INVALID_LABEL 1299L
#endif
#ifndef ERROR_NOT_ALL_ASSIGNED
#define ERROR_NOT_ALL_ASSIGNED 1300L
#endif
#ifndef ERROR_SOME_NOT_MAPPED
#define ERROR_SOME_NOT_MAPPED 1301L
#endif
#ifndef ERROR_NO_QUOTAS_FOR_ACCOUNT
#define ERROR_NO_QUOTAS_FOR_ACCOUNT 1302L
#endif
#ifndef ERROR_LOCAL_USER_SESSION_KEY
#define ERROR_LOCAL_USER_SESSION_KEY 1303L
#endif
#ifndef ERROR_NULL_LM_PASSWORD
#define ERROR_NULL_LM_PASSWORD 1304L
#endif
#ifndef ERROR_UNKNOWN_REVISION
#define ERROR_UNKNOWN_REVISION 1305L
#endif
#ifndef ERROR_REVISION_MISMATCH
#define ERROR_REVISION_MISMATCH 1306L
#endif
#ifndef ERROR_INVALID_OWNER
#define ERROR_INVALID_OWNER 1307L
#endif
#ifndef ERROR_INVALID_PRIMARY_GROUP
#define ERROR_INVALID_PRIMARY_GROUP 1308L
#endif
#ifndef ERROR_NO_IMPERSONATION_TOKEN
#define ERROR_NO_IMPERSONATION_TOKEN 1309L
#endif
#ifndef ERROR_CANT_DISABLE_MANDATORY
#define ERROR_CANT_DISABLE_MANDATORY 1310L
#endif
#ifndef ERROR_NO_LOGON_SERVERS
#define ERROR_NO_LOGON_SERVERS 1311L
#endif
#ifndef ERROR_NO_SUCH_LOGON_SESSION
#define ERROR_NO_SUCH_LOGON_SESSION 1312L
#endif
#ifndef ERROR_NO_SUCH_PRIVILEGE
#define ERROR_NO_SUCH_PRIVILEGE 1313L
#endif
#ifndef ERROR_PRIVILEGE_NOT_HELD
#define ERROR_PRIVILEGE_NOT_HELD 1314L
#endif
#ifndef ERROR_INVALID_ACCOUNT_NAME
#define ERROR_INVALID_ACCOUNT_NAME 1315L
#endif
#ifndef ERROR_USER_EXISTS
#define ERROR_USER_EXISTS 1316L
#endif
#ifndef ERROR_NO_SUCH_USER
#define ERROR_NO_SUCH_USER 1317L
#endif
#ifndef ERROR_GROUP_EXISTS
#define ERROR_GROUP_EXISTS 1318L
#endif
#ifndef ERROR_NO_SUCH_GROUP
#define ERROR_NO_SUCH_GROUP 1319L
#endif
#ifndef ERROR_MEMBER_IN_GROUP
#define ERROR_MEMBER_IN_GROUP 1320L
#endif
#ifndef ERROR_MEMBER_NOT_IN_GROUP
#define ERROR_MEMBER_NOT_IN_GROUP 1321L
#endif
#ifndef ERROR_LAST_ADMIN
#define ERROR_LAST_ADMIN 1322L
#endif
#ifndef ERROR_WRONG_PASSWORD
#define ERROR_WRONG_PASSWORD 1323L
#endif
#ifndef ERROR_ILL_FORMED_PASSWORD
#define ERROR_ILL_FORMED_PASSWORD 1324L
#endif
#ifndef ERROR_PASSWORD_RESTRICTION
#define ERROR_PASSWORD_RESTRICTION 1325L
#endif
#ifndef ERROR_LOGON_FAILURE
#define ERROR_LOGON_FAILURE 1326L
#endif
#ifndef ERROR_ACCOUNT_RESTRICTION
#define ERROR_ACCOUNT_RESTRICTION 1327L
#endif
#ifndef ERROR_INVALID_LOGON_HOURS
#define ERROR_INVALID_LOGON_HOURS 1328L
#endif
#ifndef ERROR_INVALID_WORKSTATION
#define ERROR_INVALID_WORKSTATION 1329L
#endif
#ifndef ERROR_PASSWORD_EXPIRED
#define ERROR_PASSWORD_EXPIRED 1330L
#endif
#ifndef ERROR_ACCOUNT_DISABLED
#define ERROR_ACCOUNT_DISABLED 1331L
#endif
#ifndef ERROR_NONE_MAPPED
#define ERROR_NONE_MAPPED 1332L
#endif
#ifndef ERROR_TOO_MANY_LUIDS_REQUESTED
#define ERROR_TOO_MANY_LUIDS_REQUESTED 1333L
#endif
#ifndef ERROR_LUIDS_EXHAUSTED
#define ERROR_LUIDS_EXHAUSTED 1334L
#endif
#ifndef ERROR_INVALID_SUB_AUTHORITY
#define ERROR_INVALID_SUB_AUTHORITY 1335L
#endif
#ifndef ERROR_INVALID_ACL
#define ERROR_INVALID_ACL 1336L
#endif
#ifndef ERROR_INVALID_SID
#define ERROR_INVALID_SID 1337L
#endif
#ifndef ERROR_INVALID_SECURITY_DESCR
#define ERROR_INVALID_SECURITY_DESCR 1338L
#endif
#ifndef ERROR_BAD_INHERITANCE_ACL
#define ERROR_BAD_INHERITANCE_ACL 1340L
#endif
#ifndef ERROR_SERVER_DISABLED
#define ERROR_SERVER_DISABLED 1341L
#endif
#ifndef ERROR_SERVER_NOT_DISABLED
#define ERROR_SERVER_NOT_DISABLED 1342L
#endif
#ifndef ERROR_INVALID_ID_AUTHORITY
#define ERROR_INVALID_ID_AUTHORITY 1343L
#endif
#ifndef ERROR_ALLOTTED_SPACE_EXCEEDED
#define ERROR_ALLOTTED_SPACE_EXCEEDED 1344L
#endif
#ifndef ERROR_INVALID_GROUP_ATTRIBUTES
#define ERROR_INVALID_GROUP_ATTRIBUTES 1345L
#endif
#ifndef ERROR_BAD_IMPERSONATION_LEVEL
#define ERROR_BAD_IMPERSONATION_LEVEL 1346L
#endif
#ifndef ERROR_CANT_OPEN_ANONYMOUS
#define ERROR_CANT_OPEN_ANONYMOUS 1347L
#endif
#ifndef ERROR_BAD_VALIDATION_CLASS
#define ERROR_BAD_VALIDATION_CLASS 1348L
#endif
#ifndef ERROR_BAD_TOKEN_TYPE
#define ERROR_BAD_TOKEN_TYPE 1349L
#endif
#ifndef ERROR_NO_SECURITY_ON_OBJECT
#define ERROR_NO_SECURITY_ON_OBJECT 1350L
#endif
#ifndef ERROR_CANT_ACCESS_DOMAIN_INFO
#define ERROR_CANT_ACCESS_DOMAIN_INFO 1351L
#endif
#ifndef ERROR_INVALID_SERVER_STATE
#define ERROR_INVALID_SERVER_STATE 1352L
#endif
#ifndef ERROR_INVALID_DOMAIN_STATE
#define ERROR_INVALID_DOMAIN_STATE 1353L
#endif
#ifndef ERROR_INVALID_DOMAIN_ROLE
#define ERROR_INVALID_DOMAIN_ROLE 1354L
#endif
#ifndef ERROR_NO_SUCH_DOMAIN
#define ERROR_NO_SUCH_DOMAIN 1355L
#endif
#ifndef ERROR_DOMAIN_EXISTS
#define ERROR_DOMAIN_EXISTS 1356L
#endif
#ifndef ERROR_DOMAIN_LIMIT_EXCEEDED
#define ERROR_DOMAIN_LIMIT_EXCEEDED 1357L
#endif
#ifndef ERROR_INTERNAL_DB_CORRUPTION
#define ERROR_INTERNAL_DB_CORRUPTION 1358L
#endif
#ifndef ERROR_INTERNAL_ERROR
#define ERROR_INTERNAL_ERROR 1359L
#endif
#ifndef ERROR_GENERIC_NOT_MAPPED
#define ERROR_GENERIC_NOT_MAPPED 1360L
#endif
#ifndef ERROR_BAD_DESCRIPTOR_FORMAT
#define ERROR_BAD_DESCRIPTOR_FORMAT 1361L
#endif
#ifndef ERROR_NOT_LOGON_PROCESS
#define ERROR_NOT_LOGON_PROCESS 1362L
#endif
#ifndef ERROR_LOGON_SESSION_EXISTS
#define ERROR_LOGON_SESSION_EXISTS 1363L
#endif
#ifndef ERROR_NO_SUCH_PACKAGE
#define ERROR_NO_SUCH_PACKAGE 1364L
#endif
#ifndef ERROR_BAD_LOGON_SESSION_STATE
#define ERROR_BAD_LOGON_SESSION_STATE 1365L
#endif
#ifndef ERROR_LOGON_SESSION_COLLISION
#define ERROR_LOGON_SESSION_COLLISION 1366L
#endif
#ifndef ERROR_INVALID_LOGON_TYPE
#define ERROR_INVALID_LOGON_TYPE 1367L
#endif
#ifndef ERROR_CANNOT_IMPERSONATE
#define ERROR_CANNOT_IMPERSONATE 1368L
#endif
#ifndef ERROR_RXACT_INVALID_STATE
#define ERROR_RXACT_INVALID_STATE 1369L
#endif
#ifndef ERROR_RXACT_COMMIT_FAILURE
#define ERROR_RXACT_COMMIT_FAILURE 1370L
#endif
#ifndef ERROR_SPECIAL_ACCOUNT
#define ERROR_SPECIAL_ACCOUNT 1371L
#endif
#ifndef ERROR_SPECIAL_GROUP
#define ERROR_SPECIAL_GROUP 1372L
#endif
#ifndef ERROR_SPECIAL_USER
#define ERROR_SPECIAL_USER 1373L
#endif
#ifndef ERROR_MEMBERS_PRIMARY_GROUP
#define ERROR_MEMBERS_PRIMARY_GROUP 1374L
#endif
#ifndef ERROR_TOKEN_ALREADY_IN_USE
#define ERROR_TOKEN_ALREADY_IN_USE 1375L
#endif
#ifndef ERROR_NO_SUCH_ALIAS
#define ERROR_NO_SUCH_ALIAS 1376L
#endif
#ifndef ERROR_MEMBER_NOT_IN_ALIAS
#define ERROR_MEMBER_NOT_IN_ALIAS 1377L
#endif
#ifndef ERROR_MEMBER_IN_ALIAS
#define ERROR_MEMBER_IN_ALIAS 1378L
#endif
#ifndef ERROR_ALIAS_EXISTS
#define ERROR_ALIAS_EXISTS 1379L
#endif
#ifndef ERROR_LOGON_NOT_GRANTED
#define ERROR_LOGON_NOT_GRANTED 1380L
#endif
#ifndef ERROR_TOO_MANY_SECRETS
#define ERROR_TOO_MANY_SECRETS 1381L
#endif
#ifndef ERROR_SECRET_TOO_LONG
#define ERROR_SECRET_TOO_LONG 1382L
#endif
#ifndef ERROR_INTERNAL_DB_ERROR
#define ERROR_INTERNAL_DB_ERROR 1383L
#endif
#ifndef ERROR_TOO_MANY_CONTEXT_IDS
#define ERROR_TOO_MANY_CONTEXT_IDS 1384L
#endif
#ifndef ERROR_LOGON_TYPE_NOT_GRANTED
#define ERROR_LOGON_TYPE_NOT_GRANTED 1385L
#endif
#ifndef ERROR_NT_CROSS_ENCRYPTION_REQUIRED
#define ERROR_NT_CROSS_ENCRYPTION_REQUIRED 1386L
#endif
#ifndef ERROR_NO_SUCH_MEMBER
#define ERROR_NO_SUCH_MEMBER 1387L
#endif
#ifndef ERROR_INVALID_MEMBER
#define ERROR_INVALID_MEMBER 1388L
#endif
#ifndef ERROR_TOO_MANY_SIDS
#define ERROR_TOO_MANY_SIDS 1389L
#endif
#ifndef ERROR_LM_CROSS_ENCRYPTION_REQUIRED
#define ERROR_LM_CROSS_ENCRYPTION_REQUIRED 1390L
#endif
#ifndef ERROR_NO_INHERITANCE
#define ERROR_NO_INHERITANCE 1391L
#endif
#ifndef ERROR_FILE_CORRUPT
#define ERROR_FILE_CORRUPT 1392L
#endif
#ifndef ERROR_DISK_CORRUPT
#define ERROR_DISK_CORRUPT 1393L
#endif
#ifndef ERROR_NO_USER_SESSION_KEY
#define ERROR_NO_USER_SESSION_KEY 1394L
#endif
#ifndef ERROR_LICENSE_QUOTA_EXCEEDED
#define ERROR_LICENSE_QUOTA_EXCEEDED 1395L
#endif
#ifndef ERROR_WRONG_TARGET_NAME
#define ERROR_WRONG_TARGET_NAME 1396L
#endif
#ifndef ERROR_MUTUAL_AUTH_FAILED
#define ERROR_MUTUAL_AUTH_FAILED 1397L
#endif
#ifndef ERROR_TIME_SKEW
#define ERROR_TIME_SKEW 1398L
#endif
#ifndef ERROR_CURRENT_DOMAIN_NOT_ALLOWED
#define ERROR_CURRENT_DOMAIN_NOT_ALLOWED 1399L
#endif
#ifndef ERROR_INVALID_WINDOW_HANDLE
#define ERROR_INVALID_WINDOW_HANDLE 1400L
#endif
#ifndef ERROR_INVALID_MENU_HANDLE
#define ERROR_INVALID_MENU_HANDLE 1401L
#endif
#ifndef ERROR_INVALID_CURSOR_HANDLE
#define ERROR_INVALID_CURSOR_HANDLE 1402L
#endif
#ifndef ERROR_INVALID_ACCEL_HANDLE
#define ERROR_INVALID_ACCEL_HANDLE 1403L
#endif
#ifndef ERROR_INVALID_HOOK_HANDLE
#define ERROR_INVALID_HOOK_HANDLE 1404L
#endif
#ifndef ERROR_INVALID_DWP_HANDLE
#define ERROR_INVALID_DWP_HANDLE 1405L
#endif
#ifndef ERROR_TLW_WITH_WSCHILD
#define ERROR_TLW_WITH_WSCHILD 1406L
#endif
#ifndef ERROR_CANNOT_FIND_WND_CLASS
#define ERROR_CANNOT_FIND_WND_CLASS 1407L
#endif
#ifndef ERROR_WINDOW_OF_OTHER_THREAD
#define ERROR_WINDOW_OF_OTHER_THREAD 1408L
#endif
#ifndef ERROR_HOTKEY_ALREADY_REGISTERED
#define ERROR_HOTKEY_ALREADY_REGISTERED 1409L
#endif
#ifndef ERROR_CLASS_ALREADY_EXISTS
#define ERROR_CLASS_ALREADY_EXISTS 1410L
#endif
#ifndef ERROR_CLASS_DOES_NOT_EXIST
#define ERROR_CLASS_DOES_NOT_EXIST 1411L
#endif
#ifndef ERROR_CLASS_HAS_WINDOWS
#define ERROR_CLASS_HAS_WINDOWS 1412L
#endif
#ifndef ERROR_INVALID_INDEX
#define ERROR_INVALID_INDEX 1413L
#endif
#ifndef ERROR_INVALID_ICON_HANDLE
#define ERROR_INVALID_ICON_HANDLE 1414L
#endif
#ifndef ERROR_PRIVATE_DIALOG_INDEX
#define ERROR_PRIVATE_DIALOG_INDEX 1415L
#endif
#ifndef ERROR_LISTBOX_ID_NOT_FOUND
#define ERROR_LISTBOX_ID_NOT_FOUND 1416L
#endif
#ifndef ERROR_NO_WILDCARD_CHARACTERS
#define ERROR_NO_WILDCARD_CHARACTERS 1417L
#endif
#ifndef ERROR_CLIPBOARD_NOT_OPEN
#define ERROR_CLIPBOARD_NOT_OPEN 1418L
#endif
#ifndef ERROR_HOTKEY_NOT_REGISTERED
#define ERROR_HOTKEY_NOT_REGISTERED 1419L
#endif
#ifndef ERROR_WINDOW_NOT_DIALOG
#define ERROR_WINDOW_NOT_DIALOG 1420L
#endif
#ifndef ERROR_CONTROL_ID_NOT_FOUND
#define ERROR_CONTROL_ID_NOT_FOUND 1421L
#endif
#ifndef ERROR_INVALID_COMBOBOX_MESSAGE
#define ERROR_INVALID_COMBOBOX_MESSAGE 1422L
#endif
#ifndef ERROR_WINDOW_NOT_COMBOBOX
#define ERROR_WINDOW_NOT_COMBOBOX 1423L
#endif
#ifndef ERROR_INVALID_EDIT_HEIGHT
#define ERROR_INVALID_EDIT_HEIGHT 1424L
#endif
#ifndef ERROR_DC_NOT_FOUND
#define ERROR_DC_NOT_FOUND 1425L
#endif
#ifndef ERROR_INVALID_HOOK_FILTER
#define ERROR_INVALID_HOOK_FILTER 1426L
#endif
#ifndef ERROR_INVALID_FILTER_PROC
#define ERROR_INVALID_FILTER_PROC 1427L
#endif
#ifndef ERROR_HOOK_NEEDS_HMOD
#define ERROR_HOOK_NEEDS_HMOD 1428L
#endif
#ifndef ERROR_GLOBAL_ONLY_HOOK
#define ERROR_GLOBAL_ONLY_HOOK 1429L
#endif
#ifndef ERROR_JOURNAL_HOOK_SET
#define ERROR_JOURNAL_HOOK_SET 1430L
#endif
#ifndef ERROR_HOOK_NOT_INSTALLED
#define ERROR_HOOK_NOT_INSTALLED 1431L
#endif
#ifndef ERROR_INVALID_LB_MESSAGE
#define ERROR_INVALID_LB_MESSAGE 1432L
#endif
#ifndef ERROR_SETCOUNT_ON_BAD_LB
#define ERROR_SETCOUNT_ON_BAD_LB 1433L
#endif
#ifndef ERROR_LB_WITHOUT_TABSTOPS
#define ERROR_LB_WITHOUT_TABSTOPS 1434L
#endif
#ifndef ERROR_DESTROY_OBJECT_OF_OTHER_THREAD
#define ERROR_DESTROY_OBJECT_OF_OTHER_THREAD 1435L
#endif
#ifndef ERROR_CHILD_WINDOW_MENU
#define ERROR_CHILD_WINDOW_MENU 1436L
#endif
#ifndef ERROR_NO_SYSTEM_MENU
#define ERROR_NO_SYSTEM_MENU 1437L
#endif
#ifndef ERROR_INVALID_MSGBOX_STYLE
#define ERROR_INVALID_MSGBOX_STYLE 1438L
#endif
#ifndef ERROR_INVALID_SPI_VALUE
#define ERROR_INVALID_SPI_VALUE 1439L
#endif
#ifndef ERROR_SCREEN_ALREADY_LOCKED
#define ERROR_SCREEN_ALREADY_LOCKED 1440L
#endif
#ifndef ERROR_HWNDS_HAVE_DIFF_PARENT
#define ERROR_HWNDS_HAVE_DIFF_PARENT 1441L
#endif
#ifndef ERROR_NOT_CHILD_WINDOW
#define ERROR_NOT_CHILD_WINDOW 1442L
#endif
#ifndef ERROR_INVALID_GW_COMMAND
#define ERROR_INVALID_GW_COMMAND 1443L
#endif
#ifndef ERROR_INVALID_THREAD_ID
#define ERROR_INVALID_THREAD_ID 1444L
#endif
#ifndef ERROR_NON_MDICHILD_WINDOW
#define ERROR_NON_MDICHILD_WINDOW 1445L
#endif
#ifndef ERROR_POPUP_ALREADY_ACTIVE
#define ERROR_POPUP_ALREADY_ACTIVE 1446L
#endif
#ifndef ERROR_NO_SCROLLBARS
#define ERROR_NO_SCROLLBARS 1447L
#endif
#ifndef ERROR_INVALID_SCROLLBAR_RANGE
#define ERROR_INVALID_SCROLLBAR_RANGE 1448L
#endif
#ifndef ERROR_INVALID_SHOWWIN_COMMAND
#define ERROR_INVALID_SHOWWIN_COMMAND 1449L
#endif
#ifndef ERROR_NO_SYSTEM_RESOURCES
#define ERROR_NO_SYSTEM_RESOURCES 1450L
#endif
#ifndef ERROR_NONPAGED_SYSTEM_RESOURCES
#define ERROR_NONPAGED_SYSTEM_RESOURCES 1451L
#endif
#ifndef ERROR_PAGED_SYSTEM_RESOURCES
#define ERROR_PAGED_SYSTEM_RESOURCES 1452L
#endif
#ifndef ERROR_WORKING_SET_QUOTA
#define ERROR_WORKING_SET_QUOTA 1453L
#endif
#ifndef ERROR_PAGEFILE_QUOTA
#define ERROR_PAGEFILE_QUOTA 1454L
#endif
#ifndef ERROR_COMMITMENT_LIMIT
#define ERROR_COMMITMENT_LIMIT 1455L
#endif
#ifndef ERROR_MENU_ITEM_NOT_FOUND
#define ERROR_MENU_ITEM_NOT_FOUND 1456L
#endif
#ifndef ERROR_INVALID_KEYBOARD_HANDLE
#define ERROR_INVALID_KEYBOARD_HANDLE 1457L
#endif
#ifndef ERROR_HOOK_TYPE_NOT_ALLOWED
#define ERROR_HOOK_TYPE_NOT_ALLOWED 1458L
#endif
#ifndef ERROR_REQUIRES_INTERACTIVE_WINDOWSTATION
#define ERROR_REQUIRES_INTERACTIVE_WINDOWSTATION 1459L
#endif
#ifndef ERROR_TIMEOUT
#define ERROR_TIMEOUT 1460L
#endif
#ifndef ERROR_INVALID_MONITOR_HANDLE
#define ERROR_INVALID_MONITOR_HANDLE 1461L
#endif
#ifndef ERROR_INCORRECT_SIZE
#define ERROR_INCORRECT_SIZE 1462L
#endif
#ifndef ERROR_SYMLINK_CLASS_DISABLED
#define ERROR_SYMLINK_CLASS_DISABLED 1463L
#endif
#ifndef ERROR_SYMLINK_NOT_SUPPORTED
#define ERROR_SYMLINK_NOT_SUPPORTED 1464L
#endif
#ifndef ERROR_XML_PARSE_ERROR
#define ERROR_XML_PARSE_ERROR 1465L
#endif
#ifndef ERROR_XMLDSIG_ERROR
#define ERROR_XMLDSIG_ERROR 1466L
#endif
#ifndef ERROR_RESTART_APPLICATION
#define ERROR_RESTART_APPLICATION 1467L
#endif
#ifndef ERROR_WRONG_COMPARTMENT
#define ERROR_WRONG_COMPARTMENT 1468L
#endif
#ifndef ERROR_AUTHIP_FAILURE
#define ERROR_AUTHIP_FAILURE 1469L
#endif
#ifndef ERROR_NO_NVRAM_RESOURCES
#define ERROR_NO_NVRAM_RESOURCES 1470L
#endif
#ifndef ERROR_NOT_GUI_PROCESS
#define ERROR_NOT_GUI_PROCESS 1471L
#endif
#ifndef ERROR_EVENTLOG_FILE_CORRUPT
#define ERROR_EVENTLOG_FILE_CORRUPT 1500L
#endif
#ifndef ERROR_EVENTLOG_CANT_START
#define ERROR_EVENTLOG_CANT_START 1501L
#endif
#ifndef ERROR_LOG_FILE_FULL
#define ERROR_LOG_FILE_FULL 1502L
#endif
#ifndef ERROR_EVENTLOG_FILE_CHANGED
#define ERROR_EVENTLOG_FILE_CHANGED 1503L
#endif
#ifndef ERROR_CONTAINER_ASSIGNED
#define ERROR_CONTAINER_ASSIGNED 1504L
#endif
#ifndef ERROR_JOB_NO_CONTAINER
#define ERROR_JOB_NO_CONTAINER 1505L
#endif
#ifndef ERROR_INVALID_TASK_NAME
#define ERROR_INVALID_TASK_NAME 1550L
#endif
#ifndef ERROR_INVALID_TASK_INDEX
#define ERROR_INVALID_TASK_INDEX 1551L
#endif
#ifndef ERROR_THREAD_ALREADY_IN_TASK
#define ERROR_THREAD_ALREADY_IN_TASK 1552L
#endif
#ifndef ERROR_INSTALL_SERVICE_FAILURE
#define ERROR_INSTALL_SERVICE_FAILURE 1601L
#endif
#ifndef ERROR_INSTALL_USEREXIT
#define ERROR_INSTALL_USEREXIT 1602L
#endif
#ifndef ERROR_INSTALL_FAILURE
#define ERROR_INSTALL_FAILURE 1603L
#endif
#ifndef ERROR_INSTALL_SUSPEND
#define ERROR_INSTALL_SUSPEND 1604L
#endif
#ifndef ERROR_UNKNOWN_PRODUCT
#define ERROR_UNKNOWN_PRODUCT 1605L
#endif
#ifndef ERROR_UNKNOWN_FEATURE
#define ERROR_UNKNOWN_FEATURE 1606L
#endif
#ifndef ERROR_UNKNOWN_COMPONENT
#define ERROR_UNKNOWN_COMPONENT 1607L
#endif
#ifndef ERROR_UNKNOWN_PROPERTY
#define ERROR_UNKNOWN_PROPERTY 1608L
#endif
#ifndef ERROR_INVALID_HANDLE_STATE
#define ERROR_INVALID_HANDLE_STATE 1609L
#endif
#ifndef ERROR_BAD_CONFIGURATION
#define ERROR_BAD_CONFIGURATION 1610L
#endif
#ifndef ERROR_INDEX_ABSENT
#define ERROR_INDEX_ABSENT 1611L
#endif
#ifndef ERROR_INSTALL_SOURCE_ABSENT
#define ERROR_INSTALL_SOURCE_ABSENT 1612L
#endif
#ifndef ERROR_INSTALL_PACKAGE_VERSION
#define ERROR_INSTALL_PACKAGE_VERSION 1613L
#endif
#ifndef ERROR_PRODUCT_UNINSTALLED
#define ERROR_PRODUCT_UNINSTALLED 1614L
#endif
#ifndef ERROR_BAD_QUERY_SYNTAX
#define ERROR_BAD_QUERY_SYNTAX 1615L
#endif
#ifndef ERROR_INVALID_FIELD
#define ERROR_INVALID_FIELD 1616L
#endif
#ifndef ERROR_DEVICE_REMOVED
#define ERROR_DEVICE_REMOVED 1617L
#endif
#ifndef ERROR_INSTALL_ALREADY_RUNNING
#define ERROR_INSTALL_ALREADY_RUNNING 1618L
#endif
#ifndef ERROR_INSTALL_PACKAGE_OPEN_FAILED
#define ERROR_INSTALL_PACKAGE_OPEN_FAILED 1619L
#endif
#ifndef ERROR_INSTALL_PACKAGE_INVALID
#define ERROR_INSTALL_PACKAGE_INVALID 1620L
#endif
#ifndef ERROR_INSTALL_UI_FAILURE
#define ERROR_INSTALL_UI_FAILURE 1621L
#endif
#ifndef ERROR_INSTALL_LOG_FAILURE
#define ERROR_INSTALL_LOG_FAILURE 1622L
#endif
#ifndef ERROR_INSTALL_LANGUAGE_UNSUPPORTED
#define ERROR_INSTALL_LANGUAGE_UNSUPPORTED 1623L
#endif
#ifndef ERROR_INSTALL_TRANSFORM_FAILURE
#define ERROR_INSTALL_TRANSFORM_FAILURE 1624L
#endif
#ifndef ERROR_INSTALL_PACKAGE_REJECTED
#define ERROR_INSTALL_PACKAGE_REJECTED 1625L
#endif
#ifndef ERROR_FUNCTION_NOT_CALLED
#define ERROR_FUNCTION_NOT_CALLED 1626L
#endif
#ifndef ERROR_FUNCTION_FAILED
#define ERROR_FUNCTION_FAILED 1627L
#endif
#ifndef ERROR_INVALID_TABLE
#define ERROR_INVALID_TABLE 1628L
#endif
#ifndef ERROR_DATATYPE_MISMATCH
#define ERROR_DATATYPE_MISMATCH 1629L
#endif
#ifndef ERROR_UNSUPPORTED_TYPE
#define ERROR_UNSUPPORTED_TYPE 1630L
#endif
#ifndef ERROR_CREATE_FAILED
#define ERROR_CREATE_FAILED 1631L
#endif
#ifndef ERROR_INSTALL_TEMP_UNWRITABLE
#define ERROR_INSTALL_TEMP_UNWRITABLE 1632L
#endif
#ifndef ERROR_INSTALL_PLATFORM_UNSUPPORTED
#define ERROR_INSTALL_PLATFORM_UNSUPPORTED 1633L
#endif
#ifndef ERROR_INSTALL_NOTUSED
#define ERROR_INSTALL_NOTUSED 1634L
#endif
#ifndef ERROR_PATCH_PACKAGE_OPEN_FAILED
#define ERROR_PATCH_PACKAGE_OPEN_FAILED 1635L
#endif
#ifndef ERROR_PATCH_PACKAGE_INVALID
#define ERROR_PATCH_PACKAGE_INVALID 1636L
#endif
#ifndef ERROR_PATCH_PACKAGE_UNSUPPORTED
#define ERROR_PATCH_PACKAGE_UNSUPPORTED 1637L
#endif
#ifndef ERROR_PRODUCT_VERSION
#define ERROR_PRODUCT_VERSION 1638L
#endif
#ifndef ERROR_INVALID_COMMAND_LINE
#define ERROR_INVALID_COMMAND_LINE 1639L
#endif
#ifndef ERROR_INSTALL_REMOTE_DISALLOWED
#define ERROR_INSTALL_REMOTE_DISALLOWED 1640L
#endif
#ifndef ERROR_SUCCESS_REBOOT_INITIATED
#define ERROR_SUCCESS_REBOOT_INITIATED 1641L
#endif
#ifndef ERROR_PATCH_TARGET_NOT_FOUND
#define ERROR_PATCH_TARGET_NOT_FOUND 1642L
#endif
#ifndef ERROR_PATCH_PACKAGE_REJECTED
#define ERROR_PATCH_PACKAGE_REJECTED 1643L
#endif
#ifndef ERROR_INSTALL_TRANSFORM_REJECTED
#define ERROR_INSTALL_TRANSFORM_REJECTED 1644L
#endif
#ifndef ERROR_INSTALL_REMOTE_PROHIBITED
#define ERROR_INSTALL_REMOTE_PROHIBITED 1645L
#endif
#ifndef ERROR_PATCH_REMOVAL_UNSUPPORTED
#define ERROR_PATCH_REMOVAL_UNSUPPORTED 1646L
#endif
#ifndef ERROR_UNKNOWN_PATCH
#define ERROR_UNKNOWN_PATCH 1647L
#endif
#ifndef ERROR_PATCH_NO_SEQUENCE
#define ERROR_PATCH_NO_SEQUENCE 1648L
#endif
#ifndef ERROR_PATCH_REMOVAL_DISALLOWED
#define ERROR_PATCH_REMOVAL_DISALLOWED 1649L
#endif
#ifndef ERROR_INVALID_PATCH_XML
#define ERROR_INVALID_PATCH_XML 1650L
#endif
#ifndef ERROR_PATCH_MANAGED_ADVERTISED_PRODUCT
#define ERROR_PATCH_MANAGED_ADVERTISED_PRODUCT 1651L
#endif
#ifndef ERROR_INSTALL_SERVICE_SAFEBOOT
#define ERROR_INSTALL_SERVICE_SAFEBOOT 1652L
#endif
#ifndef ERROR_FAIL_FAST_EXCEPTION
#define ERROR_FAIL_FAST_EXCEPTION 1653L
#endif
#ifndef ERROR_INSTALL_REJECTED
#define ERROR_INSTALL_REJECTED 1654L
#endif
#ifndef ERROR_DYNAMIC_CODE_BLOCKED
#define ERROR_DYNAMIC_CODE_BLOCKED 1655L
#endif
#ifndef ERROR_NOT_SAME_OBJECT
#define ERROR_NOT_SAME_OBJECT 1656L
#endif
#ifndef ERROR_STRICT_CFG_VIOLATION
#define ERROR_STRICT_CFG_VIOLATION 1657L
#endif
#ifndef ERROR_SET_CONTEXT_DENIED
#define ERROR_SET_CONTEXT_DENIED 1660L
#endif
#ifndef ERROR_CROSS_PARTITION_VIOLATION
#define ERROR_CROSS_PARTITION_VIOLATION 1661L
#endif
#ifndef ERROR_RETURN_ADDRESS_HIJACK_ATTEMPT
#define ERROR_RETURN_ADDRESS_HIJACK_ATTEMPT 1662L
#endif
#ifndef ERROR_INVALID_USER_BUFFER
#define ERROR_INVALID_USER_BUFFER 1784L
#endif
#ifndef ERROR_UNRECOGNIZED_MEDIA
#define ERROR_UNRECOGNIZED_MEDIA 1785L
#endif
#ifndef ERROR_NO_TRUST_LSA_SECRET
#define ERROR_NO_TRUST_LSA_SECRET 1786L
#endif
#ifndef ERROR_NO_TRUST_SAM_ACCOUNT
#define ERROR_NO_TRUST_SAM_ACCOUNT 1787L
#endif
#ifndef ERROR_TRUSTED_DOMAIN_FAILURE
#define ERROR_TRUSTED_DOMAIN_FAILURE 1788L
#endif
#ifndef ERROR_TRUSTED_RELATIONSHIP_FAILURE
#define ERROR_TRUSTED_RELATIONSHIP_FAILURE 1789L
#endif
#ifndef ERROR_TRUST_FAILURE
#define ERROR_TRUST_FAILURE 1790L
#endif
#ifndef ERROR_NETLOGON_NOT_STARTED
#define ERROR_NETLOGON_NOT_STARTED 1792L
#endif
#ifndef ERROR_ACCOUNT_EXPIRED
#define ERROR_ACCOUNT_EXPIRED 1793L
#endif
#ifndef ERROR_REDIRECTOR_HAS_OPEN_HANDLES
#define ERROR_REDIRECTOR_HAS_OPEN_HANDLES 1794L
#endif
#ifndef ERROR_PRINTER_DRIVER_ALREADY_INSTALLED
#define ERROR_PRINTER_DRIVER_ALREADY_INSTALLED 1795L
#endif
#ifndef ERROR_UNKNOWN_PORT
#define ERROR_UNKNOWN_PORT 1796L
#endif
#ifndef ERROR_UNKNOWN_PRINTER_DRIVER
#define ERROR_UNKNOWN_PRINTER_DRIVER 1797L
#endif
#ifndef ERROR_UNKNOWN_PRINTPROCESSOR
#define ERROR_UNKNOWN_PRINTPROCESSOR 1798L
#endif
#ifndef ERROR_INVALID_SEPARATOR_FILE
#define ERROR_INVALID_SEPARATOR_FILE 1799L
#endif
#ifndef ERROR_INVALID_PRIORITY
#define ERROR_INVALID_PRIORITY 1800L
#endif
#ifndef ERROR_INVALID_PRINTER_NAME
#define ERROR_INVALID_PRINTER_NAME 1801L
#endif
#ifndef ERROR_PRINTER_ALREADY_EXISTS
#define ERROR_PRINTER_ALREADY_EXISTS 1802L
#endif
#ifndef ERROR_INVALID_PRINTER_COMMAND
#define ERROR_INVALID_PRINTER_COMMAND 1803L
#endif
#ifndef ERROR_INVALID_DATATYPE
#define ERROR_INVALID_DATATYPE 1804L
#endif
#ifndef ERROR_INVALID_ENVIRONMENT
#define ERROR_INVALID_ENVIRONMENT 1805L
#endif
#ifndef ERROR_NOLOGON_INTERDOMAIN_TRUST_ACCOUNT
#define ERROR_NOLOGON_INTERDOMAIN_TRUST_ACCOUNT 1807L
#endif
#ifndef ERROR_NOLOGON_WORKSTATION_TRUST_ACCOUNT
#define ERROR_NOLOGON_WORKSTATION_TRUST_ACCOUNT 1808L
#endif
#ifndef ERROR_NOLOGON_SERVER_TRUST_ACCOUNT
#define ERROR_NOLOGON_SERVER_TRUST_ACCOUNT 1809L
#endif
#ifndef ERROR_DOMAIN_TRUST_INCONSISTENT
#define ERROR_DOMAIN_TRUST_INCONSISTENT 1810L
#endif
#ifndef ERROR_SERVER_HAS_OPEN_HANDLES
#define ERROR_SERVER_HAS_OPEN_HANDLES 1811L
#endif
#ifndef ERROR_RESOURCE_DATA_NOT_FOUND
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812L
#endif
#ifndef ERROR_RESOURCE_TYPE_NOT_FOUND
#define ERROR_RESOURCE_TYPE_NOT_FOUND 1813L
#endif
#ifndef ERROR_RESOURCE_NAME_NOT_FOUND
#define ERROR_RESOURCE_NAME_NOT_FOUND 1814L
#endif
#ifndef ERROR_RESOURCE_LANG_NOT_FOUND
#define ERROR_RESOURCE_LANG_NOT_FOUND 1815L
#endif
#ifndef ERROR_NOT_ENOUGH_QUOTA
#define ERROR_NOT_ENOUGH_QUOTA 1816L
#endif
#ifndef ERROR_INVALID_TIME
#define ERROR_INVALID_TIME 1901L
#endif
#ifndef ERROR_INVALID_FORM_NAME
#define ERROR_INVALID_FORM_NAME 1902L
#endif
#ifndef ERROR_INVALID_FORM_SIZE
#define ERROR_INVALID_FORM_SIZE 1903L
#endif
#ifndef ERROR_ALREADY_WAITING
#define ERROR_ALREADY_WAITING 1904L
#endif
#ifndef ERROR_PRINTER_DELETED
#define ERROR_PRINTER_DELETED 1905L
#endif
#ifndef ERROR_INVALID_PRINTER_STATE
#define ERROR_INVALID_PRINTER_STATE 1906L
#endif
#ifndef ERROR_PASSWORD_MUST_CHANGE
#define ERROR_PASSWORD_MUST_CHANGE 1907L
#endif
#ifndef ERROR_DOMAIN_CONTROLLER_NOT_FOUND
#define ERROR_DOMAIN_CONTROLLER_NOT_FOUND 1908L
#endif
#ifndef ERROR_ACCOUNT_LOCKED_OUT
#define ERROR_ACCOUNT_LOCKED_OUT 1909L
#endif
#ifndef ERROR_NO_SITENAME
#define ERROR_NO_SITENAME 1919L
#endif
#ifndef ERROR_CANT_ACCESS_FILE
#define ERROR_CANT_ACCESS_FILE 1920L
#endif
#ifndef ERROR_CANT_RESOLVE_FILENAME
#define ERROR_CANT_RESOLVE_FILENAME 1921L
#endif
#ifndef ERROR_KM_DRIVER_BLOCKED
#define ERROR_KM_DRIVER_BLOCKED 1930L
#endif
#ifndef ERROR_CONTEXT_EXPIRED
#define ERROR_CONTEXT_EXPIRED 1931L
#endif
#ifndef ERROR_PER_USER_TRUST_QUOTA_EXCEEDED
#define ERROR_PER_USER_TRUST_QUOTA_EXCEEDED 1932L
#endif
#ifndef ERROR_ALL_USER_TRUST_QUOTA_EXCEEDED
#define ERROR_ALL_USER_TRUST_QUOTA_EXCEEDED 1933L
#endif
#ifndef ERROR_USER_DELETE_TRUST_QUOTA_EXCEEDED
#define ERROR_USER_DELETE_TRUST_QUOTA_EXCEEDED 1934L
#endif
#ifndef ERROR_AUTHENTICATION_FIREWALL_FAILED
#define ERROR_AUTHENTICATION_FIREWALL_FAILED 1935L
#endif
#ifndef ERROR_REMOTE_PRINT_CONNECTIONS_BLOCKED
#define ERROR_REMOTE_PRINT_CONNECTIONS_BLOCKED 1936L
#endif
#ifndef ERROR_NTLM_BLOCKED
#define ERROR_NTLM_BLOCKED 1937L
#endif
#ifndef ERROR_PASSWORD_CHANGE_REQUIRED
#define ERROR_PASSWORD_CHANGE_REQUIRED 1938L
#endif
#ifndef ERROR_LOST_MODE_LOGON_RESTRICTION
#define ERROR_LOST_MODE_LOGON_RESTRICTION 1939L
#endif
