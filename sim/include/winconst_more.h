// Further constants of Windows' headers that the simulated world gives no meaning of its own.
#pragma once
#define ABOVE_NORMAL_PRIORITY_CLASS 0x8000
#define ACCESS_ALLOWED_ACE_TYPE (0x0)
#define ACCESS_ALLOWED_CALLBACK_ACE_TYPE (0x9)
#define ACCESS_ALLOWED_CALLBACK_OBJECT_ACE_TYPE (0xB)
#define ACCESS_ALLOWED_COMPOUND_ACE_TYPE (0x4)
#define ACCESS_ALLOWED_OBJECT_ACE_TYPE (0x5)
#define ACCESS_DENIED_ACE_TYPE (0x1)
#define ACCESS_DENIED_CALLBACK_ACE_TYPE (0xA)
#define ACCESS_DENIED_CALLBACK_OBJECT_ACE_TYPE (0xC)
#define ACCESS_DENIED_OBJECT_ACE_TYPE (0x6)
#define ACCESS_FILTERKEYS 0x0002
#define ACCESS_MAX_LEVEL 4
#define ACCESS_MAX_MS_ACE_TYPE (0x8)
#define ACCESS_MAX_MS_OBJECT_ACE_TYPE (0x8)
#define ACCESS_MAX_MS_V2_ACE_TYPE (0x3)
#define ACCESS_MAX_MS_V3_ACE_TYPE (0x4)
#define ACCESS_MAX_MS_V4_ACE_TYPE (0x8)
#define ACCESS_MAX_MS_V5_ACE_TYPE (0x15)
#define ACCESS_MIN_MS_ACE_TYPE (0x0)
#define ACCESS_MIN_MS_OBJECT_ACE_TYPE (0x5)
#define ACCESS_MOUSEKEYS 0x0003
#define ACCESS_OBJECT_GUID 0
#define ACCESS_PROPERTY_GUID 2
#define ACCESS_PROPERTY_SET_GUID 1
#define ACCESS_REASON_DATA_MASK 0x0000ffff
#define ACCESS_REASON_EXDATA_MASK 0x7f000000
#define ACCESS_REASON_STAGING_MASK 0x80000000
#define ACCESS_REASON_TYPE_MASK 0x00ff0000
#define ACCESS_STICKYKEYS 0x0001
#define ACL_REVISION (2)
#define ACL_REVISION1 (1)
#define ACL_REVISION2 (2)
#define ACL_REVISION3 (3)
#define ACL_REVISION4 (4)
#define ACL_REVISION_DS (4)
#define ANSI_CHARSET 0
#define ARABIC_CHARSET 178
#define BALTIC_CHARSET 186
#define BASE_SEARCH_PATH_DISABLE_SAFE_SEARCHMODE 0x10000
#define BASE_SEARCH_PATH_ENABLE_SAFE_SEARCHMODE 0x1
#define BASE_SEARCH_PATH_INVALID_FLAGS (~0x18001)
#define BASE_SEARCH_PATH_PERMANENT 0x8000
#define BELOW_NORMAL_PRIORITY_CLASS 0x4000
#define CHINESEBIG5_CHARSET 136
#define COMMON_LVB_SBCSDBCS 0x300
#define CONSOLE_APPLICATION_16BIT 0x0000
#define CONSOLE_CARET_SELECTION 0x0001
#define CONSOLE_CARET_VISIBLE 0x0002
#define CONSOLE_FULLSCREEN 1
#define CONSOLE_FULLSCREEN_HARDWARE 2
#define CONSOLE_FULLSCREEN_MODE 1
#define CONSOLE_MOUSE_DOWN 0x8
#define CONSOLE_MOUSE_SELECTION 0x4
#define CONSOLE_NO_SELECTION 0x0
#define CONSOLE_SELECTION_IN_PROGRESS 0x1
#define CONSOLE_SELECTION_NOT_EMPTY 0x2
#define CONSOLE_WINDOWED_MODE 2
#define CONTAINER_INHERIT_ACE (0x2)
#define CP_INSTALLED 0x00000001
#define CP_MACCP 2
#define CP_NONE 0
#define CP_OEMCP 1
#define CP_RECTANGLE 1
#define CP_REGION 2
#define CP_SUPPORTED 0x00000002
#define CP_SYMBOL 42
#define CP_THREAD_ACP 3
#define CP_UTF7 65000
#define CREATE_BOUNDARY_DESCRIPTOR_ADD_APPCONTAINER_SID 0x1
#define CREATE_EVENT_INITIAL_SET 0x2
#define CREATE_EVENT_MANUAL_RESET 0x1
#define CREATE_FORCEDOS 0x2000
#define CREATE_FOR_DIR (2)
#define CREATE_FOR_IMPORT (1)
#define CREATE_IGNORE_SYSTEM_DEFAULT 0x80000000
#define CREATE_MUTEX_INITIAL_OWNER 0x1
#define CREATE_PRESERVE_CODE_AUTHZ_LEVEL 0x2000000
#define CREATE_PROCESS_DEBUG_EVENT 3
#define CREATE_PROTECTED_PROCESS 0x40000
#define CREATE_SECURE_PROCESS 0x400000
#define CREATE_SEPARATE_WOW_VDM 0x800
#define CREATE_SHARED_WOW_VDM 0x1000
#define CREATE_THREAD_DEBUG_EVENT 2
#define CREATE_WAITABLE_TIMER_HIGH_RESOLUTION 0x2
#define CREATE_WAITABLE_TIMER_MANUAL_RESET 0x1
#define CTRL_LOGOFF_EVENT 5
#define CTRL_SHUTDOWN_EVENT 6
#define DEBUG_ONLY_THIS_PROCESS 0x2
#define DEBUG_PROCESS 0x1
#define DEFAULT_CHARSET 1
#define DEFAULT_PITCH 0
#define DISABLE_MAX_PRIVILEGE 0x1
#define DISABLE_NEWLINE_AUTO_RETURN 0x8
#define EASTEUROPE_CHARSET 238
#define ENABLE_LVB_GRID_WORLDWIDE 0x10
#define EVENT_AIA_END 0xafff
#define EVENT_AIA_START 0xa000
#define EVENT_MAX 0x7FFFFFFF
#define EVENT_MIN 0x00000001
#define EVENT_MODIFY_STATE 0x0002
#define EVENT_OEM_DEFINED_END 0x01ff
#define EVENT_OEM_DEFINED_START 0x0101
#define EXCEPTION_ACCESS_VIOLATION (STATUS_ACCESS_VIOLATION)
#define EXCEPTION_ARRAY_BOUNDS_EXCEEDED (STATUS_ARRAY_BOUNDS_EXCEEDED)
#define EXCEPTION_BREAKPOINT (STATUS_BREAKPOINT)
#define EXCEPTION_COLLIDED_UNWIND 0x40
#define EXCEPTION_DATATYPE_MISALIGNMENT (STATUS_DATATYPE_MISALIGNMENT)
#define EXCEPTION_DEBUG_EVENT 1
#define EXCEPTION_EXECUTE_FAULT 8
#define EXCEPTION_EXIT_UNWIND 0x4
#define EXCEPTION_FLT_DENORMAL_OPERAND (STATUS_FLOAT_DENORMAL_OPERAND)
#define EXCEPTION_FLT_DIVIDE_BY_ZERO (STATUS_FLOAT_DIVIDE_BY_ZERO)
#define EXCEPTION_FLT_INEXACT_RESULT (STATUS_FLOAT_INEXACT_RESULT)
#define EXCEPTION_FLT_INVALID_OPERATION (STATUS_FLOAT_INVALID_OPERATION)
#define EXCEPTION_FLT_OVERFLOW (STATUS_FLOAT_OVERFLOW)
#define EXCEPTION_FLT_STACK_CHECK (STATUS_FLOAT_STACK_CHECK)
#define EXCEPTION_FLT_UNDERFLOW (STATUS_FLOAT_UNDERFLOW)
#define EXCEPTION_GUARD_PAGE (STATUS_GUARD_PAGE_VIOLATION)
#define EXCEPTION_ILLEGAL_INSTRUCTION (STATUS_ILLEGAL_INSTRUCTION)
#define EXCEPTION_INT_DIVIDE_BY_ZERO (STATUS_INTEGER_DIVIDE_BY_ZERO)
#define EXCEPTION_INT_OVERFLOW (STATUS_INTEGER_OVERFLOW)
#define EXCEPTION_INVALID_DISPOSITION (STATUS_INVALID_DISPOSITION)
#define EXCEPTION_INVALID_HANDLE (STATUS_INVALID_HANDLE)
#define EXCEPTION_IN_PAGE_ERROR (STATUS_IN_PAGE_ERROR)
#define EXCEPTION_MAXIMUM_PARAMETERS 15
#define EXCEPTION_NESTED_CALL 0x10
#define EXCEPTION_NONCONTINUABLE 0x1
#define EXCEPTION_NONCONTINUABLE_EXCEPTION (STATUS_NONCONTINUABLE_EXCEPTION)
#define EXCEPTION_PRIV_INSTRUCTION (STATUS_PRIVILEGED_INSTRUCTION)
#define EXCEPTION_READ_FAULT 0
#define EXCEPTION_SINGLE_STEP (STATUS_SINGLE_STEP)
#define EXCEPTION_STACK_INVALID 0x8
#define EXCEPTION_STACK_OVERFLOW (STATUS_STACK_OVERFLOW)
#define EXCEPTION_TARGET_UNWIND 0x20
#define EXCEPTION_UNWIND 0x66
#define EXCEPTION_UNWINDING 0x2
#define EXCEPTION_WRITE_FAULT 1
#define FF_DECORATIVE (5<<4)
#define FF_DONTCARE (0<<4)
#define FF_MODERN (3<<4)
#define FF_ROMAN (1<<4)
#define FF_SCRIPT (4<<4)
#define FF_SWISS (2<<4)
#define FILE_ACTION_ADDED 0x00000001
#define FILE_ACTION_MODIFIED 0x00000003
#define FILE_ACTION_REMOVED 0x00000002
#define FILE_ACTION_RENAMED_NEW_NAME 0x00000005
#define FILE_ACTION_RENAMED_OLD_NAME 0x00000004
#define FILE_ADD_FILE (0x0002)
#define FILE_ADD_SUBDIRECTORY (0x0004)
#define FILE_ATTRIBUTE_ARCHIVE 0x00000020
#define FILE_ATTRIBUTE_COMPRESSED 0x00000800
#define FILE_ATTRIBUTE_DEVICE 0x00000040
#define FILE_ATTRIBUTE_DIRECTORY 0x00000010
#define FILE_ATTRIBUTE_EA 0x00040000
#define FILE_ATTRIBUTE_ENCRYPTED 0x00004000
#define FILE_ATTRIBUTE_HIDDEN 0x00000002
#define FILE_ATTRIBUTE_INTEGRITY_STREAM 0x00008000
#define FILE_ATTRIBUTE_NOT_CONTENT_INDEXED 0x00002000
#define FILE_ATTRIBUTE_NO_SCRUB_DATA 0x00020000
#define FILE_ATTRIBUTE_OFFLINE 0x00001000
#define FILE_ATTRIBUTE_PINNED 0x00080000
#define FILE_ATTRIBUTE_READONLY 0x00000001
#define FILE_ATTRIBUTE_RECALL_ON_DATA_ACCESS 0x00400000
#define FILE_ATTRIBUTE_RECALL_ON_OPEN 0x00040000
#define FILE_ATTRIBUTE_REPARSE_POINT 0x00000400
#define FILE_ATTRIBUTE_SPARSE_FILE 0x00000200
#define FILE_ATTRIBUTE_STRICTLY_SEQUENTIAL 0x20000000
#define FILE_ATTRIBUTE_SYSTEM 0x00000004
#define FILE_ATTRIBUTE_TEMPORARY 0x00000100
#define FILE_ATTRIBUTE_UNPINNED 0x00100000
#define FILE_ATTRIBUTE_VIRTUAL 0x00010000
#define FILE_BEGIN 0
#define FILE_CASE_PRESERVED_NAMES 0x00000002
#define FILE_CASE_SENSITIVE_SEARCH 0x00000001
#define FILE_COMPLETE_IF_OPLOCKED 0x00000100
#define FILE_CREATE 0x00000002
#define FILE_CREATE_TREE_CONNECTION 0x00000080
#define FILE_CS_FLAG_CASE_SENSITIVE_DIR 0x00000001
#define FILE_CURRENT 1
#define FILE_DAX_VOLUME 0x20000000
#define FILE_DELETE_CHILD (0x0040)
#define FILE_DELETE_ON_CLOSE 0x00001000
#define FILE_DIRECTORY_FILE 0x00000001
#define FILE_DIR_DISALLOWED 9
#define FILE_DISALLOW_EXCLUSIVE 0x00020000
#define FILE_DISPOSITION_FLAG_DELETE 0x00000001
#define FILE_DISPOSITION_FLAG_DO_NOT_DELETE 0x00000000
#define FILE_DISPOSITION_FLAG_FORCE_IMAGE_SECTION_CHECK 0x00000004
#define FILE_DISPOSITION_FLAG_IGNORE_READONLY_ATTRIBUTE 0x00000010
#define FILE_DISPOSITION_FLAG_ON_CLOSE 0x00000008
#define FILE_DISPOSITION_FLAG_POSIX_SEMANTICS 0x00000002
#define FILE_ENCRYPTABLE 0
#define FILE_END 2
#define FILE_EXECUTE (0x0020)
#define FILE_FILE_COMPRESSION 0x00000010
#define FILE_FLAG_BACKUP_SEMANTICS 0x2000000
#define FILE_FLAG_DELETE_ON_CLOSE 0x4000000
#define FILE_FLAG_NO_BUFFERING 0x20000000
#define FILE_FLAG_OPEN_NO_RECALL 0x100000
#define FILE_FLAG_OPEN_REPARSE_POINT 0x200000
#define FILE_FLAG_OPEN_REQUIRING_OPLOCK 0x40000
#define FILE_FLAG_POSIX_SEMANTICS 0x1000000
#define FILE_FLAG_RANDOM_ACCESS 0x10000000
#define FILE_FLAG_SEQUENTIAL_SCAN 0x8000000
#define FILE_FLAG_SESSION_AWARE 0x800000
#define FILE_IS_ENCRYPTED 1
#define FILE_LIST_DIRECTORY (0x0001)
#define FILE_MAXIMUM_DISPOSITION 0x00000005
#define FILE_NAMED_STREAMS 0x00040000
#define FILE_NAME_FLAGS_UNSPECIFIED 0x80
#define FILE_NAME_FLAG_BOTH 0x03
#define FILE_NAME_FLAG_DOS 0x02
#define FILE_NAME_FLAG_HARDLINK 0
#define FILE_NAME_FLAG_NTFS 0x01
#define FILE_NAME_NORMALIZED 0x0
#define FILE_NAME_OPENED 0x8
#define FILE_NON_DIRECTORY_FILE 0x00000040
#define FILE_NOTIFY_CHANGE_ATTRIBUTES 0x00000004
#define FILE_NOTIFY_CHANGE_CREATION 0x00000040
#define FILE_NOTIFY_CHANGE_DIR_NAME 0x00000002
#define FILE_NOTIFY_CHANGE_FILE_NAME 0x00000001
#define FILE_NOTIFY_CHANGE_LAST_ACCESS 0x00000020
#define FILE_NOTIFY_CHANGE_LAST_WRITE 0x00000010
#define FILE_NOTIFY_CHANGE_SECURITY 0x00000100
#define FILE_NOTIFY_CHANGE_SIZE 0x00000008
#define FILE_NO_COMPRESSION 0x00008000
#define FILE_NO_EA_KNOWLEDGE 0x00000200
#define FILE_NO_INTERMEDIATE_BUFFERING 0x00000008
#define FILE_OPEN 0x00000001
#define FILE_OPEN_BY_FILE_ID 0x00002000
#define FILE_OPEN_FOR_BACKUP_INTENT 0x00004000
#define FILE_OPEN_FOR_FREE_SPACE_QUERY 0x00800000
#define FILE_OPEN_IF 0x00000003
#define FILE_OPEN_NO_RECALL 0x00400000
#define FILE_OPEN_REMOTE_INSTANCE 0x00000400
#define FILE_OPEN_REPARSE_POINT 0x00200000
#define FILE_OPEN_REQUIRING_OPLOCK 0x00010000
#define FILE_OVERWRITE 0x00000004
#define FILE_OVERWRITE_IF 0x00000005
#define FILE_PERSISTENT_ACLS 0x00000008
#define FILE_RANDOM_ACCESS 0x00000800
#define FILE_READ_ATTRIBUTES (0x0080)
#define FILE_READ_DATA (0x0001)
#define FILE_READ_EA (0x0008)
#define FILE_READ_ONLY 8
#define FILE_READ_ONLY_VOLUME 0x00080000
#define FILE_RENAME_FLAG_POSIX_SEMANTICS 0x00000002
#define FILE_RENAME_FLAG_REPLACE_IF_EXISTS 0x00000001
#define FILE_RENAME_FLAG_SUPPRESS_PIN_STATE_INHERITANCE 0x00000004
#define FILE_RESERVE_OPFILTER 0x00100000
#define FILE_RETURNS_CLEANUP_RESULT_INFO 0x00000200
#define FILE_ROOT_DIR 3
#define FILE_SEQUENTIAL_ONLY 0x00000004
#define FILE_SEQUENTIAL_WRITE_ONCE 0x00100000
#define FILE_SHARE_DELETE 0x00000004
#define FILE_SHARE_VALID_FLAGS 0x00000007
#define FILE_SKIP_COMPLETION_PORT_ON_SUCCESS 0x1
#define FILE_SKIP_SET_EVENT_ON_HANDLE 0x2
#define FILE_SUPERSEDE 0x00000000
#define FILE_SUPPORTS_BLOCK_REFCOUNTING 0x08000000
#define FILE_SUPPORTS_BYPASS_IO 0x00000800
#define FILE_SUPPORTS_CASE_SENSITIVE_DIRS 0x00002000
#define FILE_SUPPORTS_ENCRYPTION 0x00020000
#define FILE_SUPPORTS_EXTENDED_ATTRIBUTES 0x00800000
#define FILE_SUPPORTS_GHOSTING 0x40000000
#define FILE_SUPPORTS_HARD_LINKS 0x00400000
#define FILE_SUPPORTS_INTEGRITY_STREAMS 0x04000000
#define FILE_SUPPORTS_OBJECT_IDS 0x00010000
#define FILE_SUPPORTS_OPEN_BY_FILE_ID 0x01000000
#define FILE_SUPPORTS_POSIX_UNLINK_RENAME 0x00000400
#define FILE_SUPPORTS_REMOTE_STORAGE 0x00000100
#define FILE_SUPPORTS_REPARSE_POINTS 0x00000080
#define FILE_SUPPORTS_SPARSE_FILES 0x00000040
#define FILE_SUPPORTS_SPARSE_VDL 0x10000000
#define FILE_SUPPORTS_STREAM_SNAPSHOTS 0x00001000
#define FILE_SUPPORTS_TRANSACTIONS 0x00200000
#define FILE_SUPPORTS_USN_JOURNAL 0x02000000
#define FILE_SYNCHRONOUS_IO_ALERT 0x00000010
#define FILE_SYNCHRONOUS_IO_NONALERT 0x00000020
#define FILE_SYSTEM_ATTR 2
#define FILE_SYSTEM_DIR 4
#define FILE_SYSTEM_NOT_SUPPORT 6
#define FILE_TRAVERSE (0x0020)
#define FILE_TYPE_CHAR 0x2
#define FILE_TYPE_DISK 0x1
#define FILE_TYPE_PIPE 0x3
#define FILE_TYPE_REMOTE 0x8000
#define FILE_TYPE_UNKNOWN 0x0
#define FILE_UNICODE_ON_DISK 0x00000004
#define FILE_UNKNOWN 5
#define FILE_USER_DISALLOWED 7
#define FILE_VOLUME_IS_COMPRESSED 0x00008000
#define FILE_VOLUME_QUOTAS 0x00000020
#define FILE_WRITE_THROUGH 0x00000002
#define FIXED_PITCH 1
#define FORMAT_MESSAGE_ARGUMENT_ARRAY 0x00002000
#define FORMAT_MESSAGE_FROM_HMODULE 0x00000800
#define FORMAT_MESSAGE_FROM_STRING 0x00000400
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0x000000ff
#define FW_BLACK (FW_HEAVY)
#define FW_BOLD 700
#define FW_DEMIBOLD (FW_SEMIBOLD)
#define FW_DONTCARE 0
#define FW_EXTRABOLD 800
#define FW_EXTRALIGHT 200
#define FW_HEAVY 900
#define FW_LIGHT 300
#define FW_MEDIUM 500
#define FW_NORMAL 400
#define FW_REGULAR (FW_NORMAL)
#define FW_SEMIBOLD 600
#define FW_THIN 100
#define FW_ULTRABOLD (FW_EXTRABOLD)
#define FW_ULTRALIGHT (FW_EXTRALIGHT)
#define GB2312_CHARSET 134
#define GMEM_DDESHARE 0x2000
#define GMEM_DISCARDABLE 0x100
#define GMEM_DISCARDED 0x4000
#define GMEM_FIXED 0x0
#define GMEM_INVALID_HANDLE 0x8000
#define GMEM_LOCKCOUNT 0x00ff
#define GMEM_LOWER (GMEM_NOT_BANKED)
#define GMEM_MODIFY 0x80
#define GMEM_MOVEABLE 0x2
#define GMEM_NOCOMPACT 0x10
#define GMEM_NODISCARD 0x20
#define GMEM_NOTIFY 0x4000
#define GMEM_NOT_BANKED 0x1000
#define GMEM_SHARE 0x2000
#define GMEM_VALID_FLAGS 0x7f72
#define GMEM_ZEROINIT 0x40
#define GREEK_CHARSET 161
#define GWL_EXSTYLE (-20)
#define GWL_HINSTANCE (-6)
#define GWL_HWNDPARENT (-8)
#define GWL_ID (-12)
#define GWL_STYLE (-16)
#define GWL_USERDATA (-21)
#define GWL_WNDPROC (-4)
#define HANDLE_FLAG_PROTECT_FROM_CLOSE 0x2
#define HANGEUL_CHARSET 129
#define HANGUL_CHARSET 129
#define HEAP_CREATE_ALIGN_16 0x00010000
#define HEAP_CREATE_ENABLE_EXECUTE 0x00040000
#define HEAP_CREATE_ENABLE_TRACING 0x00020000
#define HEAP_DISABLE_COALESCE_ON_FREE 0x00000080
#define HEAP_FREE_CHECKING_ENABLED 0x00000040
#define HEAP_GENERATE_EXCEPTIONS 0x00000004
#define HEAP_GROWABLE 0x00000002
#define HEAP_MAXIMUM_TAG 0x0FFF
#define HEAP_NO_SERIALIZE 0x00000001
#define HEAP_PSEUDO_TAG_FLAG 0x8000
#define HEAP_REALLOC_IN_PLACE_ONLY 0x00000010
#define HEAP_TAG_SHIFT 18
#define HEAP_TAIL_CHECKING_ENABLED 0x00000020
#define HEAP_ZERO_MEMORY 0x00000008
#define HEBREW_CHARSET 177
#define HIGH_PRIORITY_CLASS 0x80
#define IDLE_PRIORITY_CLASS 0x40
#define INHERITED_ACCESS_ENTRY 0x10
#define INHERITED_ACE (0x10)
#define INHERITED_GRANDPARENT 0x20000000
#define INHERITED_PARENT 0x10000000
#define INHERIT_CALLER_PRIORITY 0x20000
#define INHERIT_NO_PROPAGATE 0x4
#define INHERIT_ONLY 0x8
#define INHERIT_ONLY_ACE (0x8)
#define INHERIT_PARENT_AFFINITY 0x10000
#define INPUT_HARDWARE 2
#define INPUT_KEYBOARD 1
#define INPUT_MOUSE 0
#define JOHAB_CHARSET 130
#define KEYBOARD_OVERRUN_MAKE_CODE 0xFF
#define KEYEVENTF_EXTENDEDKEY 0x0001
#define KEYEVENTF_KEYUP 0x0002
#define KEYEVENTF_SCANCODE 0x0008
#define KEYEVENTF_UNICODE 0x0004
#define KEY_CREATE_LINK (0x0020)
#define KEY_CREATE_SUB_KEY (0x0004)
#define KEY_ENUMERATE_SUB_KEYS (0x0008)
#define KEY_NOTIFY (0x0010)
#define KEY_QUERY_VALUE (0x0001)
#define KEY_SET_VALUE (0x0002)
#define KEY_WOW64_32KEY (0x0200)
#define KEY_WOW64_64KEY (0x0100)
#define KEY_WOW64_RES (0x0300)
#define LCMAP_BYTEREV 0x00000800
#define LCMAP_FULLWIDTH 0x00800000
#define LCMAP_HALFWIDTH 0x00400000
#define LCMAP_HASH 0x00040000
#define LCMAP_HIRAGANA 0x00100000
#define LCMAP_KATAKANA 0x00200000
#define LCMAP_LINGUISTIC_CASING 0x01000000
#define LCMAP_LOWERCASE 0x00000100
#define LCMAP_SIMPLIFIED_CHINESE 0x02000000
#define LCMAP_SORTHANDLE 0x20000000
#define LCMAP_SORTKEY 0x00000400
#define LCMAP_TITLECASE 0x00000300
#define LCMAP_TRADITIONAL_CHINESE 0x04000000
#define LCMAP_UPPERCASE 0x00000200
#define LF_FULLFACESIZE 64
#define LMEM_DISCARDABLE 0xf00
#define LMEM_DISCARDED 0x4000
#define LMEM_INVALID_HANDLE 0x8000
#define LMEM_LOCKCOUNT 0xff
#define LMEM_MODIFY 0x80
#define LMEM_MOVEABLE 0x2
#define LMEM_NOCOMPACT 0x10
#define LMEM_NODISCARD 0x20
#define LMEM_VALID_FLAGS 0xf72
#define LMEM_ZEROINIT 0x40
#define LOAD_DLL_DEBUG_EVENT 6
#define LOGON32_LOGON_BATCH 4
#define LOGON32_LOGON_INTERACTIVE 2
#define LOGON32_LOGON_NETWORK 3
#define LOGON32_LOGON_NETWORK_CLEARTEXT 8
#define LOGON32_LOGON_NEW_CREDENTIALS 9
#define LOGON32_LOGON_SERVICE 5
#define LOGON32_LOGON_UNLOCK 7
#define LOGON32_PROVIDER_DEFAULT 0
#define LOGON32_PROVIDER_VIRTUAL 4
#define LOGON32_PROVIDER_WINNT35 1
#define LOGON32_PROVIDER_WINNT40 2
#define LOGON32_PROVIDER_WINNT50 3
#define MAC_CHARSET 77
#define MAILSLOT_NO_MESSAGE (-1)
#define MAILSLOT_WAIT_FOREVER (-1)
#define MAPVK_VK_TO_VSC_EX (4)
#define MAPVK_VSC_TO_VK_EX (3)
#define MAXBYTE 0xff
#define MAXCHAR 0x7f
#define MAXIMUM_PROCESSORS (MAXIMUM_PROC_PER_GROUP)
#define MAXIMUM_PROC_PER_GROUP 64
#define MAXIMUM_RESERVED_MANIFEST_RESOURCE_ID 16
#define MAXIMUM_SUPPORTED_EXTENSION 512
#define MAXIMUM_SUSPEND_COUNT (MAXCHAR)
#define MAXIMUM_XSTATE_FEATURES (64)
#define MAXINTATOM 0xc000
#define MAXLOGICALLOGNAMESIZE 256
#define MAXLONG 0x7fffffff
#define MAXLONGLONG (0x7fffffffffffffff)
#define MAXSHORT 0x7fff
#define MAXSTRETCHBLTMODE 4
#define MAXWORD 0xffff
#define MAX_ACL_REVISION (ACL_REVISION4)
#define MAX_COMPUTERNAME_LENGTH 15
#define MAX_DEFAULTCHAR 2
#define MAX_HW_COUNTERS 16
#define MAX_LEADBYTES 12
#define MAX_LOGICALDPIOVERRIDE 2
#define MAX_PROFILE_LEN 80
#define MAX_RESOURCEMANAGER_DESCRIPTION_LENGTH 64
#define MAX_STR_BLOCKREASON 256
#define MAX_SUPPORTED_OS_NUM (4)
#define MAX_TOUCH_COUNT 256
#define MAX_TOUCH_PREDICTION_FILTER_TAPS 3
#define MAX_TRANSACTION_DESCRIPTION_LENGTH 64
#define MAX_UCSCHAR (0x0010ffff)
#define MB_COMPOSITE 0x00000002
#define MB_PRECOMPOSED 0x00000001
#define MB_USEGLYPHCHARS 0x00000004
#define MEM_4MB_PAGES 0x80000000
#define MEM_64K_PAGES (MEM_LARGE_PAGES | MEM_PHYSICAL)
#define MEM_COALESCE_PLACEHOLDERS 0x00000001
#define MEM_COMMIT 0x1000
#define MEM_DECOMMIT 0x4000
#define MEM_DIFFERENT_IMAGE_BASE_OK 0x800000
#define MEM_FREE 0x10000
#define MEM_IMAGE (SEC_IMAGE)
#define MEM_LARGE_PAGES 0x20000000
#define MEM_MAPPED 0x40000
#define MEM_PHYSICAL 0x400000
#define MEM_PRESERVE_PLACEHOLDER 0x00000002
#define MEM_PRIVATE 0x20000
#define MEM_RELEASE 0x8000
#define MEM_REPLACE_PLACEHOLDER 0x4000
#define MEM_RESERVE 0x2000
#define MEM_RESERVE_PLACEHOLDER 0x40000
#define MEM_RESET 0x80000
#define MEM_RESET_UNDO 0x1000000
#define MEM_ROTATE 0x800000
#define MEM_TOP_DOWN 0x100000
#define MEM_UNMAP_WITH_TRANSIENT_BOOST 0x00000001
#define MEM_WRITE_WATCH 0x200000
#define MINCHAR 0x80
#define MINIMUM_RESERVED_MANIFEST_RESOURCE_ID 1
#define MINLONG 0x80000000
#define MINSHORT 0x8000
#define MIN_ACL_REVISION (ACL_REVISION2)
#define MIN_LOGICALDPIOVERRIDE (-2)
#define MIN_UCSCHAR (0)
#define MK_CONTROL 0x0008
#define MK_LBUTTON 0x0001
#define MK_MBUTTON 0x0010
#define MK_RBUTTON 0x0002
#define MK_SHIFT 0x0004
#define MK_XBUTTON1 0x0020
#define MK_XBUTTON2 0x0040
#define MOUSEEVENTF_ABSOLUTE 0x8000
#define MOUSEEVENTF_HWHEEL 0x01000
#define MOUSEEVENTF_LEFTDOWN 0x0002
#define MOUSEEVENTF_LEFTUP 0x0004
#define MOUSEEVENTF_MIDDLEDOWN 0x0020
#define MOUSEEVENTF_MIDDLEUP 0x0040
#define MOUSEEVENTF_MOVE 0x0001
#define MOUSEEVENTF_MOVE_NOCOALESCE 0x2000
#define MOUSEEVENTF_RIGHTDOWN 0x0008
#define MOUSEEVENTF_RIGHTUP 0x0010
#define MOUSEEVENTF_VIRTUALDESK 0x4000
#define MOUSEEVENTF_WHEEL 0x0800
#define MOUSEEVENTF_XDOWN 0x0080
#define MOUSEEVENTF_XUP 0x0100
#define MOUSETRAILS 39
#define MOUSEWHEEL_ROUTING_FOCUS 0
#define MOUSEWHEEL_ROUTING_HYBRID 1
#define MOUSEWHEEL_ROUTING_MOUSE_POS 2
#define MOUSE_ATTRIBUTES_CHANGED 0x04
#define MOUSE_MOVE_ABSOLUTE 1
#define MOUSE_MOVE_NOCOALESCE 0x08
#define MOUSE_MOVE_RELATIVE 0
#define MOUSE_VIRTUAL_DESKTOP 0x02
#define MUTEX_MODIFY_STATE (MUTANT_QUERY_STATE)
#define MWMO_ALERTABLE 0x0002
#define MWMO_INPUTAVAILABLE 0x0004
#define MWMO_WAITALL 0x0001
#define NMPWAIT_NOWAIT 0x1
#define NMPWAIT_USE_DEFAULT_WAIT 0x0
#define NORMAL_PRIORITY_CLASS 0x20
#define NORM_IGNORECASE 0x00000001
#define NORM_IGNOREKANATYPE 0x00010000
#define NORM_IGNORENONSPACE 0x00000002
#define NORM_IGNORESYMBOLS 0x00000004
#define NORM_IGNOREWIDTH 0x00020000
#define NORM_LINGUISTIC_CASING 0x08000000
#define NO_INHERITANCE 0x0
#define OBJECT_INHERIT_ACE (0x1)
#define OEM_CHARSET 255
#define PAGE_ENCLAVE_MASK 0x10000000
#define PAGE_ENCLAVE_THREAD_CONTROL 0x80000000
#define PAGE_ENCLAVE_UNVALIDATED 0x20000000
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define PAGE_EXECUTE_WRITECOPY 0x80
#define PAGE_GRAPHICS_COHERENT 0x20000
#define PAGE_GRAPHICS_EXECUTE 0x4000
#define PAGE_GRAPHICS_EXECUTE_READ 0x8000
#define PAGE_GRAPHICS_EXECUTE_READWRITE 0x10000
#define PAGE_GRAPHICS_NOACCESS 0x0800
#define PAGE_GRAPHICS_NOCACHE 0x40000
#define PAGE_GRAPHICS_READONLY 0x1000
#define PAGE_GRAPHICS_READWRITE 0x2000
#define PAGE_GUARD 0x100
#define PAGE_NOACCESS 0x01
#define PAGE_NOCACHE 0x200
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_REVERT_TO_FILE_MAP 0x80000000
#define PAGE_TARGETS_INVALID 0x40000000
#define PAGE_TARGETS_NO_UPDATE 0x40000000
#define PAGE_WRITECOMBINE 0x400
#define PAGE_WRITECOPY 0x08
#define PIPE_CLIENT_END 0x0
#define PIPE_SERVER_END 0x1
#define PM_NOREMOVE 0x0000
#define PM_NOYIELD 0x0002
#define PM_REMOVE 0x0001
#define PROCESS_CREATE_PROCESS (0x0080)
#define PROCESS_CREATE_THREAD (0x0002)
#define PROCESS_CREATION_ALL_APPLICATION_PACKAGES_OPT_OUT 0x01
#define PROCESS_CREATION_CHILD_PROCESS_OVERRIDE 0x02
#define PROCESS_CREATION_CHILD_PROCESS_RESTRICTED 0x01
#define PROCESS_CREATION_CHILD_PROCESS_RESTRICTED_UNLESS_SECURE 0x04
#define PROCESS_CREATION_DESKTOP_APP_BREAKAWAY_DISABLE_PROCESS_TREE 0x02
#define PROCESS_CREATION_DESKTOP_APP_BREAKAWAY_ENABLE_PROCESS_TREE 0x01
#define PROCESS_CREATION_DESKTOP_APP_BREAKAWAY_OVERRIDE 0x04
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_BLOCK_NON_CET_BINARIES_ALWAYS_OFF (0x00000002 << 36)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_BLOCK_NON_CET_BINARIES_ALWAYS_ON (0x00000001 << 36)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_BLOCK_NON_CET_BINARIES_DEFER (0x00000000 << 36)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_BLOCK_NON_CET_BINARIES_MASK (0x00000003 << 36)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_BLOCK_NON_CET_BINARIES_RESERVED (0x00000003 << 36)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_CET_USER_SHADOW_STACKS_ALWAYS_OFF (0x00000002 << 28)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_CET_USER_SHADOW_STACKS_ALWAYS_ON (0x00000001 << 28)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_CET_USER_SHADOW_STACKS_DEFER (0x00000000 << 28)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_CET_USER_SHADOW_STACKS_MASK (0x00000003 << 28)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_CET_USER_SHADOW_STACKS_RESERVED (0x00000003 << 28)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_ALWAYS_OFF (0x00000002 << 32)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_ALWAYS_ON (0x00000001 << 32)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_DEFER (0x00000000 << 32)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_MASK (0x00000003 << 32)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_RESERVED (0x00000003 << 32)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_XTENDED_CONTROL_FLOW_GUARD_ALWAYS_OFF (0x00000002 << 40)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_XTENDED_CONTROL_FLOW_GUARD_ALWAYS_ON (0x00000001 << 40)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_XTENDED_CONTROL_FLOW_GUARD_DEFER (0x00000000 << 40)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_XTENDED_CONTROL_FLOW_GUARD_MASK (0x00000003 << 40)
#define PROCESS_CREATION_MITIGATION_AUDIT_POLICY2_XTENDED_CONTROL_FLOW_GUARD_RESERVED (0x00000003 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY2_ALLOW_DOWNGRADE_DYNAMIC_CODE_POLICY_ALWAYS_OFF (0x00000002 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY2_ALLOW_DOWNGRADE_DYNAMIC_CODE_POLICY_ALWAYS_ON (0x00000001 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY2_ALLOW_DOWNGRADE_DYNAMIC_CODE_POLICY_DEFER (0x00000000 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY2_ALLOW_DOWNGRADE_DYNAMIC_CODE_POLICY_MASK (0x00000003 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY2_ALLOW_DOWNGRADE_DYNAMIC_CODE_POLICY_RESERVED (0x00000003 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY2_BLOCK_NON_CET_BINARIES_ALWAYS_OFF (0x00000002 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY2_BLOCK_NON_CET_BINARIES_ALWAYS_ON (0x00000001 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY2_BLOCK_NON_CET_BINARIES_DEFER (0x00000000 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY2_BLOCK_NON_CET_BINARIES_MASK (0x00000003 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY2_BLOCK_NON_CET_BINARIES_NON_EHCONT (0x00000003 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_DYNAMIC_APIS_OUT_OF_PROC_ONLY_ALWAYS_OFF (0x00000002 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_DYNAMIC_APIS_OUT_OF_PROC_ONLY_ALWAYS_ON (0x00000001 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_DYNAMIC_APIS_OUT_OF_PROC_ONLY_DEFER (0x00000000 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_DYNAMIC_APIS_OUT_OF_PROC_ONLY_MASK (0x00000003 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_DYNAMIC_APIS_OUT_OF_PROC_ONLY_RESERVED (0x00000003 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_USER_SHADOW_STACKS_ALWAYS_OFF (0x00000002 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_USER_SHADOW_STACKS_ALWAYS_ON (0x00000001 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_USER_SHADOW_STACKS_DEFER (0x00000000 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_USER_SHADOW_STACKS_MASK (0x00000003 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY2_CET_USER_SHADOW_STACKS_STRICT_MODE (0x00000003 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY2_LOADER_INTEGRITY_CONTINUITY_ALWAYS_OFF (0x0002 << 4)
#define PROCESS_CREATION_MITIGATION_POLICY2_LOADER_INTEGRITY_CONTINUITY_ALWAYS_ON (0x0001 << 4)
#define PROCESS_CREATION_MITIGATION_POLICY2_LOADER_INTEGRITY_CONTINUITY_AUDIT (0x0003 << 4)
#define PROCESS_CREATION_MITIGATION_POLICY2_LOADER_INTEGRITY_CONTINUITY_DEFER (0x0000 << 4)
#define PROCESS_CREATION_MITIGATION_POLICY2_LOADER_INTEGRITY_CONTINUITY_MASK (0x0003 << 4)
#define PROCESS_CREATION_MITIGATION_POLICY2_MODULE_TAMPERING_PROTECTION_ALWAYS_OFF (0x0002 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY2_MODULE_TAMPERING_PROTECTION_ALWAYS_ON (0x0001 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY2_MODULE_TAMPERING_PROTECTION_DEFER (0x0000 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY2_MODULE_TAMPERING_PROTECTION_MASK (0x0003 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY2_MODULE_TAMPERING_PROTECTION_NOINHERIT (0x0003 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY2_POINTER_AUTH_USER_IP_ALWAYS_OFF (0x00000002 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY2_POINTER_AUTH_USER_IP_ALWAYS_ON (0x00000001 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY2_POINTER_AUTH_USER_IP_DEFER (0x00000000 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY2_POINTER_AUTH_USER_IP_MASK (0x00000003 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY2_POINTER_AUTH_USER_IP_RESERVED (0x00000003 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_CORE_SHARING_ALWAYS_OFF (0x00000002 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_CORE_SHARING_ALWAYS_ON (0x00000001 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_CORE_SHARING_DEFER (0x00000000 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_CORE_SHARING_MASK (0x00000003 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_CORE_SHARING_RESERVED (0x00000003 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_INDIRECT_BRANCH_PREDICTION_ALWAYS_OFF (0x00000002 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_INDIRECT_BRANCH_PREDICTION_ALWAYS_ON (0x00000001 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_INDIRECT_BRANCH_PREDICTION_DEFER (0x00000000 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_INDIRECT_BRANCH_PREDICTION_MASK (0x00000003 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY2_RESTRICT_INDIRECT_BRANCH_PREDICTION_RESERVED (0x00000003 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY2_SPECULATIVE_STORE_BYPASS_DISABLE_ALWAYS_OFF (0x00000002 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY2_SPECULATIVE_STORE_BYPASS_DISABLE_ALWAYS_ON (0x00000001 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY2_SPECULATIVE_STORE_BYPASS_DISABLE_DEFER (0x00000000 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY2_SPECULATIVE_STORE_BYPASS_DISABLE_MASK (0x00000003 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY2_SPECULATIVE_STORE_BYPASS_DISABLE_RESERVED (0x00000003 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY2_STRICT_CONTROL_FLOW_GUARD_ALWAYS_OFF (0x0002 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY2_STRICT_CONTROL_FLOW_GUARD_ALWAYS_ON (0x0001 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY2_STRICT_CONTROL_FLOW_GUARD_DEFER (0x0000 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY2_STRICT_CONTROL_FLOW_GUARD_MASK (0x0003 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY2_STRICT_CONTROL_FLOW_GUARD_RESERVED (0x0003 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_ALWAYS_OFF (0x00000002 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_ALWAYS_ON (0x00000001 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_DEFER (0x00000000 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_MASK (0x00000003 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY2_USER_CET_SET_CONTEXT_IP_VALIDATION_RELAXED_MODE (0x00000003 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY2_XTENDED_CONTROL_FLOW_GUARD_ALWAYS_OFF (0x00000002 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY2_XTENDED_CONTROL_FLOW_GUARD_ALWAYS_ON (0x00000001 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY2_XTENDED_CONTROL_FLOW_GUARD_DEFER (0x00000000 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY2_XTENDED_CONTROL_FLOW_GUARD_MASK (0x00000003 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY2_XTENDED_CONTROL_FLOW_GUARD_RESERVED (0x00000003 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY_AUDIT_NONSYSTEM_FONTS (0x0003 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY_BLOCK_NON_MICROSOFT_BINARIES_ALLOW_STORE (0x0003 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY_BLOCK_NON_MICROSOFT_BINARIES_ALWAYS_OFF (0x0002 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY_BLOCK_NON_MICROSOFT_BINARIES_ALWAYS_ON (0x0001 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY_BLOCK_NON_MICROSOFT_BINARIES_DEFER (0x0000 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY_BLOCK_NON_MICROSOFT_BINARIES_MASK (0x0003 << 44)
#define PROCESS_CREATION_MITIGATION_POLICY_BOTTOM_UP_ASLR_ALWAYS_OFF (0x00000002 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY_BOTTOM_UP_ASLR_ALWAYS_ON (0x00000001 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY_BOTTOM_UP_ASLR_DEFER (0x00000000 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY_BOTTOM_UP_ASLR_MASK (0x00000003 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY_BOTTOM_UP_ASLR_RESERVED (0x00000003 << 16)
#define PROCESS_CREATION_MITIGATION_POLICY_CONTROL_FLOW_GUARD_ALWAYS_OFF (0x0002 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY_CONTROL_FLOW_GUARD_ALWAYS_ON (0x0001 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY_CONTROL_FLOW_GUARD_DEFER (0x0000 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY_CONTROL_FLOW_GUARD_EXPORT_SUPPRESSION (0x0003 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY_CONTROL_FLOW_GUARD_MASK (0x0003 << 40)
#define PROCESS_CREATION_MITIGATION_POLICY_DEP_ATL_THUNK_ENABLE 0x02
#define PROCESS_CREATION_MITIGATION_POLICY_DEP_ENABLE 0x01
#define PROCESS_CREATION_MITIGATION_POLICY_EXTENSION_POINT_DISABLE_ALWAYS_OFF (0x00000002 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY_EXTENSION_POINT_DISABLE_ALWAYS_ON (0x00000001 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY_EXTENSION_POINT_DISABLE_DEFER (0x00000000 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY_EXTENSION_POINT_DISABLE_MASK (0x00000003 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY_EXTENSION_POINT_DISABLE_RESERVED (0x00000003 << 32)
#define PROCESS_CREATION_MITIGATION_POLICY_FONT_DISABLE_ALWAYS_OFF (0x0002 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY_FONT_DISABLE_ALWAYS_ON (0x0001 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY_FONT_DISABLE_DEFER (0x0000 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY_FONT_DISABLE_MASK (0x0003 << 48)
#define PROCESS_CREATION_MITIGATION_POLICY_FORCE_RELOCATE_IMAGES_ALWAYS_OFF (0x00000002 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY_FORCE_RELOCATE_IMAGES_ALWAYS_ON (0x00000001 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY_FORCE_RELOCATE_IMAGES_ALWAYS_ON_REQ_RELOCS (0x00000003 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY_FORCE_RELOCATE_IMAGES_DEFER (0x00000000 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY_FORCE_RELOCATE_IMAGES_MASK (0x00000003 << 8)
#define PROCESS_CREATION_MITIGATION_POLICY_HEAP_TERMINATE_ALWAYS_OFF (0x00000002 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY_HEAP_TERMINATE_ALWAYS_ON (0x00000001 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY_HEAP_TERMINATE_DEFER (0x00000000 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY_HEAP_TERMINATE_MASK (0x00000003 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY_HEAP_TERMINATE_RESERVED (0x00000003 << 12)
#define PROCESS_CREATION_MITIGATION_POLICY_HIGH_ENTROPY_ASLR_ALWAYS_OFF (0x00000002 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY_HIGH_ENTROPY_ASLR_ALWAYS_ON (0x00000001 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY_HIGH_ENTROPY_ASLR_DEFER (0x00000000 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY_HIGH_ENTROPY_ASLR_MASK (0x00000003 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY_HIGH_ENTROPY_ASLR_RESERVED (0x00000003 << 20)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_LOW_LABEL_ALWAYS_OFF (0x0002 << 56)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_LOW_LABEL_ALWAYS_ON (0x0001 << 56)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_LOW_LABEL_DEFER (0x0000 << 56)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_LOW_LABEL_MASK (0x0003 << 56)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_LOW_LABEL_RESERVED (0x0003 << 56)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_REMOTE_ALWAYS_OFF (0x0002 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_REMOTE_ALWAYS_ON (0x0001 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_REMOTE_DEFER (0x0000 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_REMOTE_MASK (0x0003 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_NO_REMOTE_RESERVED (0x0003 << 52)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_PREFER_SYSTEM32_ALWAYS_OFF (0x0002 << 60)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_PREFER_SYSTEM32_ALWAYS_ON (0x0001 << 60)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_PREFER_SYSTEM32_DEFER (0x0000 << 60)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_PREFER_SYSTEM32_MASK (0x0003 << 60)
#define PROCESS_CREATION_MITIGATION_POLICY_IMAGE_LOAD_PREFER_SYSTEM32_RESERVED (0x0003 << 60)
#define PROCESS_CREATION_MITIGATION_POLICY_PROHIBIT_DYNAMIC_CODE_ALWAYS_OFF (0x0002 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY_PROHIBIT_DYNAMIC_CODE_ALWAYS_ON (0x0001 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY_PROHIBIT_DYNAMIC_CODE_ALWAYS_ON_ALLOW_OPT_OUT (0x0003 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY_PROHIBIT_DYNAMIC_CODE_DEFER (0x0000 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY_PROHIBIT_DYNAMIC_CODE_MASK (0x0003 << 36)
#define PROCESS_CREATION_MITIGATION_POLICY_SEHOP_ENABLE 0x04
#define PROCESS_CREATION_MITIGATION_POLICY_STRICT_HANDLE_CHECKS_ALWAYS_OFF (0x00000002 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY_STRICT_HANDLE_CHECKS_ALWAYS_ON (0x00000001 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY_STRICT_HANDLE_CHECKS_DEFER (0x00000000 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY_STRICT_HANDLE_CHECKS_MASK (0x00000003 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY_STRICT_HANDLE_CHECKS_RESERVED (0x00000003 << 24)
#define PROCESS_CREATION_MITIGATION_POLICY_WIN32K_SYSTEM_CALL_DISABLE_ALWAYS_OFF (0x00000002 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY_WIN32K_SYSTEM_CALL_DISABLE_ALWAYS_ON (0x00000001 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY_WIN32K_SYSTEM_CALL_DISABLE_DEFER (0x00000000 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY_WIN32K_SYSTEM_CALL_DISABLE_MASK (0x00000003 << 28)
#define PROCESS_CREATION_MITIGATION_POLICY_WIN32K_SYSTEM_CALL_DISABLE_RESERVED (0x00000003 << 28)
#define PROCESS_DEP_DISABLE_ATL_THUNK_EMULATION 0x00000002
#define PROCESS_DEP_ENABLE 0x00000001
#define PROCESS_HEAP_ENTRY_BUSY 0x4
#define PROCESS_HEAP_ENTRY_DDESHARE 0x20
#define PROCESS_HEAP_ENTRY_MOVEABLE 0x10
#define PROCESS_HEAP_REGION 0x1
#define PROCESS_HEAP_SEG_ALLOC 0x8
#define PROCESS_HEAP_UNCOMMITTED_RANGE 0x2
#define PROCESS_LEAP_SECOND_INFO_FLAG_ENABLE_SIXTY_SECOND 0x1
#define PROCESS_LEAP_SECOND_INFO_VALID_FLAGS (PROCESS_LEAP_SECOND_INFO_FLAG_ENABLE_SIXTY_SECOND)
#define PROCESS_MODE_BACKGROUND_BEGIN 0x100000
#define PROCESS_MODE_BACKGROUND_END 0x200000
#define PROCESS_NAME_NATIVE 0x00000001
#define PROCESS_POWER_THROTTLING_CURRENT_VERSION 1
#define PROCESS_POWER_THROTTLING_EXECUTION_SPEED 0x1
#define PROCESS_POWER_THROTTLING_IGNORE_TIMER_RESOLUTION 0x4
#define PROCESS_POWER_THROTTLING_VALID_FLAGS (PROCESS_POWER_THROTTLING_EXECUTION_SPEED | PROCESS_POWER_THROTTLING_IGNORE_TIMER_RESOLUTION)
#define PROCESS_QUERY_LIMITED_INFORMATION (0x1000)
#define PROCESS_SET_INFORMATION (0x0200)
#define PROCESS_SET_LIMITED_INFORMATION (0x2000)
#define PROCESS_SET_QUOTA (0x0100)
#define PROCESS_SET_SESSIONID (0x0004)
#define PROCESS_SUSPEND_RESUME (0x0800)
#define PROCESS_TERMINATE (0x0001)
#define PROCESS_VM_OPERATION (0x0008)
#define PROCESS_VM_READ (0x0010)
#define PROCESS_VM_WRITE (0x0020)
#define PROFILE_KERNEL 0x20000000
#define PROFILE_SERVER 0x40000000
#define PROFILE_USER 0x10000000
#define QS_ALLEVENTS (QS_INPUT | QS_POSTMESSAGE | QS_TIMER | QS_PAINT | QS_HOTKEY)
#define QS_ALLINPUT (QS_INPUT | QS_POSTMESSAGE | QS_TIMER | QS_PAINT | QS_HOTKEY | QS_SENDMESSAGE)
#define QS_ALLPOSTMESSAGE 0x0100
#define QS_HOTKEY 0x0080
#define QS_INPUT (QS_MOUSE | QS_KEY | QS_RAWINPUT | QS_TOUCH | QS_POINTER)
#define QS_KEY 0x0001
#define QS_MOUSE (QS_MOUSEMOVE | QS_MOUSEBUTTON)
#define QS_MOUSEBUTTON 0x0004
#define QS_MOUSEMOVE 0x0002
#define QS_PAINT 0x0020
#define QS_POINTER 0x1000
#define QS_POSTMESSAGE 0x0008
#define QS_RAWINPUT 0x0400
#define QS_SENDMESSAGE 0x0040
#define QS_TIMER 0x0010
#define QS_TOUCH 0x0800
#define REALTIME_PRIORITY_CLASS 0x100
#define RUSSIAN_CHARSET 204
#define SC_ARRANGE 0xF110
#define SC_CLOSE 0xF060
#define SC_CONTEXTHELP 0xF180
#define SC_DEFAULT 0xF160
#define SC_HOTKEY 0xF150
#define SC_HSCROLL 0xF080
#define SC_ICON (SC_MINIMIZE)
#define SC_KEYMENU 0xF100
#define SC_MAXIMIZE 0xF030
#define SC_MINIMIZE 0xF020
#define SC_MONITORPOWER 0xF170
#define SC_MOUSEMENU 0xF090
#define SC_MOVE 0xF010
#define SC_NEXTWINDOW 0xF040
#define SC_PREVWINDOW 0xF050
#define SC_RESTORE 0xF120
#define SC_SCREENSAVE 0xF140
#define SC_SEPARATOR 0xF00F
#define SC_SIZE 0xF000
#define SC_TASKLIST 0xF130
#define SC_VSCROLL 0xF070
#define SC_ZOOM (SC_MAXIMIZE)
#define SECURITY_CONTEXT_TRACKING 0x40000
#define SECURITY_DESCRIPTOR_REVISION1 (1)
#define SECURITY_DYNAMIC_TRACKING (TRUE)
#define SECURITY_EFFECTIVE_ONLY 0x80000
#define SECURITY_INSTALLER_CAPABILITY_RID_COUNT (10)
#define SECURITY_INSTALLER_GROUP_CAPABILITY_BASE (0x20)
#define SECURITY_INSTALLER_GROUP_CAPABILITY_RID_COUNT (9)
#define SECURITY_STATIC_TRACKING (FALSE)
#define SECURITY_TRUSTED_INSTALLER_RID1 956008885
#define SECURITY_TRUSTED_INSTALLER_RID2 3418522649
#define SECURITY_TRUSTED_INSTALLER_RID3 1831038044
#define SECURITY_TRUSTED_INSTALLER_RID4 1853292631
#define SECURITY_TRUSTED_INSTALLER_RID5 2271478464
#define SECURITY_VALID_SQOS_FLAGS 0x1f0000
#define SEMAPHORE_MODIFY_STATE 0x0002
#define SEM_FAILCRITICALERRORS 0x0001
#define SEM_NOALIGNMENTFAULTEXCEPT 0x0004
#define SEM_NOGPFAULTERRORBOX 0x0002
#define SEM_NOOPENFILEERRORBOX 0x8000
#define SE_ACCESS_CHECK_FLAG_NO_LEARNING_MODE_LOGGING 0x00000008
#define SE_ACCESS_CHECK_VALID_FLAGS 0x00000008
#define SE_DACL_AUTO_INHERITED (0x0400)
#define SE_DACL_AUTO_INHERIT_REQ (0x0100)
#define SE_DACL_DEFAULTED (0x0008)
#define SE_DACL_PRESENT (0x0004)
#define SE_DACL_PROTECTED (0x1000)
#define SE_GROUP_DEFAULTED (0x0002)
#define SE_LEARNING_MODE_FLAG_PERMISSIVE 0x00000001
#define SE_OWNER_DEFAULTED (0x0001)
#define SE_PRIVILEGE_REMOVED (0X00000004)
#define SE_RM_CONTROL_VALID (0x4000)
#define SE_SACL_AUTO_INHERITED (0x0800)
#define SE_SACL_AUTO_INHERIT_REQ (0x0200)
#define SE_SACL_DEFAULTED (0x0020)
#define SE_SACL_PRESENT (0x0010)
#define SE_SACL_PROTECTED (0x2000)
#define SE_SECURITY_DESCRIPTOR_FLAG_NO_ACCESS_FILTER_ACE 0x00000004
#define SE_SECURITY_DESCRIPTOR_FLAG_NO_LABEL_ACE 0x00000002
#define SE_SECURITY_DESCRIPTOR_FLAG_NO_OWNER_ACE 0x00000001
#define SE_SECURITY_DESCRIPTOR_VALID_FLAGS 0x00000007
#define SE_SELF_RELATIVE (0x8000)
#define SE_SIGNING_LEVEL_ANTIMALWARE (SE_SIGNING_LEVEL_CUSTOM_3)
#define SE_SIGNING_LEVEL_AUTHENTICODE 0x00000004
#define SE_SIGNING_LEVEL_CUSTOM_1 0x00000003
#define SE_SIGNING_LEVEL_CUSTOM_2 0x00000005
#define SE_SIGNING_LEVEL_CUSTOM_3 0x00000007
#define SE_SIGNING_LEVEL_CUSTOM_4 0x00000009
#define SE_SIGNING_LEVEL_CUSTOM_5 0x0000000A
#define SE_SIGNING_LEVEL_CUSTOM_6 0x0000000F
#define SE_SIGNING_LEVEL_CUSTOM_7 0x0000000D
#define SE_SIGNING_LEVEL_DEVELOPER (SE_SIGNING_LEVEL_CUSTOM_1)
#define SE_SIGNING_LEVEL_DYNAMIC_CODEGEN 0x0000000B
#define SE_SIGNING_LEVEL_ENTERPRISE 0x00000002
#define SE_SIGNING_LEVEL_MICROSOFT 0x00000008
#define SE_SIGNING_LEVEL_STORE 0x00000006
#define SE_SIGNING_LEVEL_UNCHECKED 0x00000000
#define SE_SIGNING_LEVEL_UNSIGNED 0x00000001
#define SE_SIGNING_LEVEL_WINDOWS 0x0000000C
#define SE_SIGNING_LEVEL_WINDOWS_TCB 0x0000000E
#define SHIFTJIS_CHARSET 128
#define SMTO_ABORTIFHUNG 0x0002
#define SMTO_BLOCK 0x0001
#define SMTO_ERRORONEXIT 0x0020
#define SMTO_NORMAL 0x0000
#define SMTO_NOTIMEOUTIFNOTHUNG 0x0008
#define SM_ARRANGE 56
#define SM_CARETBLINKINGENABLED 0x2002
#define SM_CLEANBOOT 67
#define SM_CMETRICS 91
#define SM_CMONITORS 80
#define SM_CMOUSEBUTTONS 43
#define SM_CONVERTIBLESLATEMODE 0x2003
#define SM_CXBORDER 5
#define SM_CXCURSOR 13
#define SM_CXDLGFRAME 7
#define SM_CXDOUBLECLK 36
#define SM_CXDRAG 68
#define SM_CXEDGE 45
#define SM_CXFIXEDFRAME (SM_CXDLGFRAME)
#define SM_CXFOCUSBORDER 83
#define SM_CXFRAME 32
#define SM_CXFULLSCREEN 16
#define SM_CXHSCROLL 21
#define SM_CXHTHUMB 10
#define SM_CXICON 11
#define SM_CXICONSPACING 38
#define SM_CXMAXIMIZED 61
#define SM_CXMAXTRACK 59
#define SM_CXMENUCHECK 71
#define SM_CXMENUSIZE 54
#define SM_CXMIN 28
#define SM_CXMINIMIZED 57
#define SM_CXMINSPACING 47
#define SM_CXMINTRACK 34
#define SM_CXPADDEDBORDER 92
#define SM_CXSCREEN 0
#define SM_CXSIZE 30
#define SM_CXSIZEFRAME (SM_CXFRAME)
#define SM_CXSMICON 49
#define SM_CXSMSIZE 52
#define SM_CXVIRTUALSCREEN 78
#define SM_CXVSCROLL 2
#define SM_CYBORDER 6
#define SM_CYCAPTION 4
#define SM_CYCURSOR 14
#define SM_CYDLGFRAME 8
#define SM_CYDOUBLECLK 37
#define SM_CYDRAG 69
#define SM_CYEDGE 46
#define SM_CYFIXEDFRAME (SM_CYDLGFRAME)
#define SM_CYFOCUSBORDER 84
#define SM_CYFRAME 33
#define SM_CYFULLSCREEN 17
#define SM_CYHSCROLL 3
#define SM_CYICON 12
#define SM_CYICONSPACING 39
#define SM_CYKANJIWINDOW 18
#define SM_CYMAXIMIZED 62
#define SM_CYMAXTRACK 60
#define SM_CYMENU 15
#define SM_CYMENUCHECK 72
#define SM_CYMENUSIZE 55
#define SM_CYMIN 29
#define SM_CYMINIMIZED 58
#define SM_CYMINSPACING 48
#define SM_CYMINTRACK 35
#define SM_CYSCREEN 1
#define SM_CYSIZE 31
#define SM_CYSIZEFRAME (SM_CYFRAME)
#define SM_CYSMCAPTION 51
#define SM_CYSMICON 50
#define SM_CYSMSIZE 53
#define SM_CYVIRTUALSCREEN 79
#define SM_CYVSCROLL 20
#define SM_CYVTHUMB 9
#define SM_DBCSENABLED 42
#define SM_DEBUG 22
#define SM_DIGITIZER 94
#define SM_IMMENABLED 82
#define SM_MAXIMUMTOUCHES 95
#define SM_MEDIACENTER 87
#define SM_MENUDROPALIGNMENT 40
#define SM_MIDEASTENABLED 74
#define SM_MOUSEHORIZONTALWHEELPRESENT 91
#define SM_MOUSEPRESENT 19
#define SM_MOUSEWHEELPRESENT 75
#define SM_NETWORK 63
#define SM_PENWINDOWS 41
#define SM_REMOTECONTROL 0x2001
#define SM_REMOTESESSION 0x1000
#define SM_RESERVED1 24
#define SM_RESERVED2 25
#define SM_RESERVED3 26
#define SM_RESERVED4 27
#define SM_SAMEDISPLAYFORMAT 81
#define SM_SECURE 44
#define SM_SERVERR2 89
#define SM_SHOWSOUNDS 70
#define SM_SHUTTINGDOWN 0x2000
#define SM_SLOWMACHINE 73
#define SM_STARTER 88
#define SM_SWAPBUTTON 23
#define SM_SYSTEMDOCKED 0x2004
#define SM_TABLETPC 86
#define SM_XVIRTUALSCREEN 76
#define SM_YVIRTUALSCREEN 77
#define STACK_SIZE_PARAM_IS_A_RESERVATION 0x10000
#define STARTF_FORCEOFFFEEDBACK 0x00000080
#define STARTF_FORCEONFEEDBACK 0x00000040
#define STARTF_HOLOGRAPHIC 0x00040000
#define STARTF_PREVENTPINNING 0x00002000
#define STARTF_RUNFULLSCREEN 0x00000020
#define STARTF_TITLEISAPPID 0x00001000
#define STARTF_TITLEISLINKNAME 0x00000800
#define STARTF_UNTRUSTEDSOURCE 0x00008000
#define STARTF_USECOUNTCHARS 0x00000008
#define STARTF_USEFILLATTRIBUTE 0x00000010
#define STARTF_USEHOTKEY 0x00000200
#define STARTF_USEPOSITION 0x00000004
#define STARTF_USESIZE 0x00000002
#define STATUS_ABANDONED_WAIT_0 (0x00000080)
#define STATUS_ACCESS_VIOLATION (0xC0000005)
#define STATUS_ALREADY_REGISTERED (0xC0000718)
#define STATUS_ARRAY_BOUNDS_EXCEEDED (0xC000008C)
#define STATUS_ASSERTION_FAILURE (0xC0000420)
#define STATUS_BREAKPOINT (0x80000003)
#define STATUS_CONTROL_C_EXIT (0xC000013A)
#define STATUS_CONTROL_STACK_VIOLATION (0xC00001B2)
#define STATUS_DATATYPE_MISALIGNMENT (0x80000002)
#define STATUS_DLL_INIT_FAILED (0xC0000142)
#define STATUS_DLL_NOT_FOUND (0xC0000135)
#define STATUS_ENCLAVE_VIOLATION (0xC00004A2)
#define STATUS_ENTRYPOINT_NOT_FOUND (0xC0000139)
#define STATUS_FATAL_APP_EXIT (0x40000015)
#define STATUS_FLOAT_DENORMAL_OPERAND (0xC000008D)
#define STATUS_FLOAT_DIVIDE_BY_ZERO (0xC000008E)
#define STATUS_FLOAT_INEXACT_RESULT (0xC000008F)
#define STATUS_FLOAT_INVALID_OPERATION (0xC0000090)
#define STATUS_FLOAT_MULTIPLE_FAULTS (0xC00002B4)
#define STATUS_FLOAT_MULTIPLE_TRAPS (0xC00002B5)
#define STATUS_FLOAT_OVERFLOW (0xC0000091)
#define STATUS_FLOAT_STACK_CHECK (0xC0000092)
#define STATUS_FLOAT_UNDERFLOW (0xC0000093)
#define STATUS_GUARD_PAGE_VIOLATION (0x80000001)
#define STATUS_HEAP_CORRUPTION (0xC0000374)
#define STATUS_ILLEGAL_INSTRUCTION (0xC000001D)
#define STATUS_INTEGER_DIVIDE_BY_ZERO (0xC0000094)
#define STATUS_INTEGER_OVERFLOW (0xC0000095)
#define STATUS_INTERRUPTED (0xC0000515)
#define STATUS_INVALID_CRUNTIME_PARAMETER (0xC0000417)
#define STATUS_INVALID_DISPOSITION (0xC0000026)
#define STATUS_INVALID_HANDLE (0xC0000008)
#define STATUS_INVALID_PARAMETER (0xC000000D)
#define STATUS_IN_PAGE_ERROR (0xC0000006)
#define STATUS_LONGJUMP (0x80000026)
#define STATUS_NONCONTINUABLE_EXCEPTION (0xC0000025)
#define STATUS_NO_MEMORY (0xC0000017)
#define STATUS_ORDINAL_NOT_FOUND (0xC0000138)
#define STATUS_PRIVILEGED_INSTRUCTION (0xC0000096)
#define STATUS_REG_NAT_CONSUMPTION (0xC00002C9)
#define STATUS_SEGMENT_NOTIFICATION (0x40000005)
#define STATUS_SINGLE_STEP (0x80000004)
#define STATUS_STACK_BUFFER_OVERRUN (0xC0000409)
#define STATUS_STACK_OVERFLOW (0xC00000FD)
#define STATUS_SXS_EARLY_DEACTIVATION (0xC015000F)
#define STATUS_SXS_INVALID_DEACTIVATION (0xC0150010)
#define STATUS_THREAD_NOT_RUNNING (0xC0000516)
#define STATUS_TIMEOUT (0x00000102)
#define STATUS_UNWIND_CONSOLIDATE (0x80000029)
#define STATUS_USER_APC (0x000000C0)
#define STATUS_WAIT_0 (0x00000000)
#define SWP_ASYNCWINDOWPOS 0x4000
#define SWP_DEFERERASE 0x2000
#define SWP_DRAWFRAME (SWP_FRAMECHANGED)
#define SWP_FRAMECHANGED 0x0020
#define SWP_HIDEWINDOW 0x0080
#define SWP_NOACTIVATE 0x0010
#define SWP_NOCOPYBITS 0x0100
#define SWP_NOMOVE 0x0002
#define SWP_NOOWNERZORDER 0x0200
#define SWP_NOREDRAW 0x0008
#define SWP_NOREPOSITION (SWP_NOOWNERZORDER)
#define SWP_NOSENDCHANGING 0x0400
#define SWP_NOSIZE 0x0001
#define SWP_NOZORDER 0x0004
#define SWP_SHOWWINDOW 0x0040
#define SW_ERASE 0x0004
#define SW_FORCEMINIMIZE 11
#define SW_INVALIDATE 0x0002
#define SW_MAX 11
#define SW_MAXIMIZE 3
#define SW_MINIMIZE 6
#define SW_NORMAL 1
#define SW_OTHERUNZOOM 4
#define SW_OTHERZOOM 2
#define SW_PARENTCLOSING 1
#define SW_PARENTOPENING 3
#define SW_RESTORE 9
#define SW_SCROLLCHILDREN 0x0001
#define SW_SHOWDEFAULT 10
#define SW_SHOWMAXIMIZED 3
#define SW_SHOWMINIMIZED 2
#define SW_SHOWMINNOACTIVE 7
#define SW_SHOWNA 8
#define SW_SHOWNOACTIVATE 4
#define SW_SHOWNORMAL 1
#define SW_SMOOTHSCROLL 0x0010
#define SYMBOL_CHARSET 2
#define THAI_CHARSET 222
#define THREAD_BASE_PRIORITY_IDLE (-15)
#define THREAD_BASE_PRIORITY_LOWRT 15
#define THREAD_BASE_PRIORITY_MAX 2
#define THREAD_BASE_PRIORITY_MIN (-2)
#define THREAD_DIRECT_IMPERSONATION (0x0200)
#define THREAD_DYNAMIC_CODE_ALLOW 1
#define THREAD_GET_CONTEXT (0x0008)
#define THREAD_IMPERSONATE (0x0100)
#define THREAD_MODE_BACKGROUND_BEGIN 0x00010000
#define THREAD_MODE_BACKGROUND_END 0x00020000
#define THREAD_PRIORITY_ERROR_RETURN (MAXLONG)
#define THREAD_PRIORITY_HIGHEST (THREAD_BASE_PRIORITY_MAX)
#define THREAD_PRIORITY_IDLE (THREAD_BASE_PRIORITY_IDLE)
#define THREAD_PRIORITY_LOWEST (THREAD_BASE_PRIORITY_MIN)
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_TIME_CRITICAL (THREAD_BASE_PRIORITY_LOWRT)
#define THREAD_PROFILING_FLAG_DISPATCH 0x1
#define THREAD_QUERY_INFORMATION (0x0040)
#define THREAD_QUERY_LIMITED_INFORMATION (0x0800)
#define THREAD_RESUME (0x1000)
#define THREAD_SET_CONTEXT (0x0010)
#define THREAD_SET_INFORMATION (0x0020)
#define THREAD_SET_LIMITED_INFORMATION (0x0400)
#define THREAD_SET_THREAD_TOKEN (0x0080)
#define THREAD_SUSPEND_RESUME (0x0002)
#define THREAD_TERMINATE (0x0001)
#define TIMER_MODIFY_STATE 0x0002
#define TIMER_QUERY_STATE 0x0001
#define TIME_FORCE24HOURFORMAT 0x00000008
#define TIME_NOMINUTESORSECONDS 0x00000001
#define TIME_NOSECONDS 0x00000002
#define TIME_NOTIMEMARKER 0x00000004
#define TMPF_DEVICE 0x08
#define TMPF_FIXED_PITCH 0x01
#define TMPF_TRUETYPE 0x04
#define TMPF_VECTOR 0x02
#define TOKEN_ACCESS_PSEUDO_HANDLE (TOKEN_ACCESS_PSEUDO_HANDLE_WIN8)
#define TOKEN_ACCESS_PSEUDO_HANDLE_WIN8 (TOKEN_QUERY | TOKEN_QUERY_SOURCE)
#define TOKEN_ADJUST_DEFAULT (0x0080)
#define TOKEN_ADJUST_GROUPS (0x0040)
#define TOKEN_ADJUST_PRIVILEGES (0x0020)
#define TOKEN_ADJUST_SESSIONID (0x0100)
#define TOKEN_ASSIGN_PRIMARY (0x0001)
#define TOKEN_DUPLICATE (0x0002)
#define TOKEN_IMPERSONATE (0x0004)
#define TOKEN_MANDATORY_POLICY_NEW_PROCESS_MIN 0x2
#define TOKEN_MANDATORY_POLICY_NO_WRITE_UP 0x1
#define TOKEN_MANDATORY_POLICY_OFF 0x0
#define TOKEN_MANDATORY_POLICY_VALID_MASK (TOKEN_MANDATORY_POLICY_NO_WRITE_UP | TOKEN_MANDATORY_POLICY_NEW_PROCESS_MIN)
#define TOKEN_QUERY_SOURCE (0x0010)
#define TOKEN_READ (STANDARD_RIGHTS_READ | TOKEN_QUERY)
#define TOKEN_SOURCE_LENGTH 8
#define TOKEN_TRUST_CONSTRAINT_MASK (STANDARD_RIGHTS_READ | TOKEN_QUERY | TOKEN_QUERY_SOURCE)
#define TOKEN_WRITE (STANDARD_RIGHTS_WRITE | TOKEN_ADJUST_PRIVILEGES | TOKEN_ADJUST_GROUPS | TOKEN_ADJUST_DEFAULT)
#define TRUNCATE_EXISTING 5
#define TURKISH_CHARSET 162
#define UOI_FLAGS 1
#define UOI_HEAPSIZE 5
#define UOI_IO 6
#define UOI_TIMERPROC_EXCEPTION_SUPPRESSION 7
#define UOI_TYPE 3
#define UOI_USER_SID 4
#define VARIABLE_PITCH 2
#define VIETNAMESE_CHARSET 163
#define WC_COMPOSITECHECK 0x00000200
#define WC_DEFAULTCHAR 0x00000040
#define WC_DISCARDNS 0x00000010
#define WC_NO_BEST_FIT_CHARS 0x00000400
#define WC_SEPCHARS 0x00000020
#define WM_ACTIVATE 0x0006
#define WM_ACTIVATEAPP 0x001C
#define WM_AFXFIRST 0x0360
#define WM_AFXLAST 0x037F
#define WM_APP 0x8000
#define WM_APPCOMMAND 0x0319
#define WM_ASKCBFORMATNAME 0x030C
#define WM_CANCELJOURNAL 0x004B
#define WM_CANCELMODE 0x001F
#define WM_CAPTURECHANGED 0x0215
#define WM_CHANGECBCHAIN 0x030D
#define WM_CHANGEUISTATE 0x0127
#define WM_CHARTOITEM 0x002F
#define WM_CHILDACTIVATE 0x0022
#define WM_CLEAR 0x0303
#define WM_CLIPBOARDUPDATE 0x031d
#define WM_COMMAND 0x0111
#define WM_COMMNOTIFY 0x0044
#define WM_COMPACTING 0x0041
#define WM_COMPAREITEM 0x0039
#define WM_CONTEXTMENU 0x007B
#define WM_COPY 0x0301
#define WM_COPYDATA 0x004A
#define WM_CREATE 0x0001
#define WM_CTLCOLORBTN 0x0135
#define WM_CTLCOLORDLG 0x0136
#define WM_CTLCOLOREDIT 0x0133
#define WM_CTLCOLORLISTBOX 0x0134
#define WM_CTLCOLORMSGBOX 0x0132
#define WM_CTLCOLORSCROLLBAR 0x0137
#define WM_CTLCOLORSTATIC 0x0138
#define WM_CUT 0x0300
#define WM_DEADCHAR 0x0103
#define WM_DELETEITEM 0x002D
#define WM_DESTROY 0x0002
#define WM_DESTROYCLIPBOARD 0x0307
#define WM_DEVICECHANGE 0x0219
#define WM_DEVMODECHANGE 0x001B
#define WM_DISPLAYCHANGE 0x007E
#define WM_DPICHANGED 0x02e0
#define WM_DPICHANGED_AFTERPARENT 0x02e3
#define WM_DPICHANGED_BEFOREPARENT 0x02e2
#define WM_DRAWCLIPBOARD 0x0308
#define WM_DRAWITEM 0x002B
#define WM_DROPFILES 0x0233
#define WM_DWMCOLORIZATIONCOLORCHANGED 0x0320
#define WM_DWMCOMPOSITIONCHANGED 0x031e
#define WM_DWMNCRENDERINGCHANGED 0x031f
#define WM_DWMSENDICONICLIVEPREVIEWBITMAP 0x0326
#define WM_DWMSENDICONICTHUMBNAIL 0x0323
#define WM_DWMWINDOWMAXIMIZEDCHANGE 0x0321
#define WM_ENABLE 0x000A
#define WM_ENDSESSION 0x0016
#define WM_ENTERIDLE 0x0121
#define WM_ENTERMENULOOP 0x0211
#define WM_ENTERSIZEMOVE 0x0231
#define WM_ERASEBKGND 0x0014
#define WM_EXITMENULOOP 0x0212
#define WM_EXITSIZEMOVE 0x0232
#define WM_FONTCHANGE 0x001D
#define WM_GESTURE 0x0119
#define WM_GESTURENOTIFY 0x011A
#define WM_GETDLGCODE 0x0087
#define WM_GETDPISCALEDSIZE 0x02e4
#define WM_GETFONT 0x0031
#define WM_GETHOTKEY 0x0033
#define WM_GETICON 0x007F
#define WM_GETMINMAXINFO 0x0024
#define WM_GETOBJECT 0x003D
#define WM_GETTEXT 0x000D
#define WM_GETTEXTLENGTH 0x000E
#define WM_GETTITLEBARINFOEX 0x033f
#define WM_HANDHELDFIRST 0x0358
#define WM_HANDHELDLAST 0x035F
#define WM_HELP 0x0053
#define WM_HOTKEY 0x0312
#define WM_HSCROLL 0x0114
#define WM_HSCROLLCLIPBOARD 0x030E
#define WM_ICONERASEBKGND 0x0027
#define WM_IME_CHAR 0x0286
#define WM_IME_COMPOSITION 0x010F
#define WM_IME_COMPOSITIONFULL 0x0284
#define WM_IME_CONTROL 0x0283
#define WM_IME_ENDCOMPOSITION 0x010E
#define WM_IME_KEYDOWN 0x0290
#define WM_IME_KEYLAST 0x010F
#define WM_IME_KEYUP 0x0291
#define WM_IME_NOTIFY 0x0282
#define WM_IME_REQUEST 0x0288
#define WM_IME_SELECT 0x0285
#define WM_IME_SETCONTEXT 0x0281
#define WM_IME_STARTCOMPOSITION 0x010D
#define WM_INITDIALOG 0x0110
#define WM_INITMENU 0x0116
#define WM_INITMENUPOPUP 0x0117
#define WM_INPUT 0x00FF
#define WM_INPUTLANGCHANGE 0x0051
#define WM_INPUTLANGCHANGEREQUEST 0x0050
#define WM_INPUT_DEVICE_CHANGE 0x00fe
#define WM_KEYFIRST 0x0100
#define WM_KEYLAST 0x0109
#define WM_KILLFOCUS 0x0008
#define WM_LBUTTONDBLCLK 0x0203
#define WM_LBUTTONDOWN 0x0201
#define WM_LBUTTONUP 0x0202
#define WM_MBUTTONDBLCLK 0x0209
#define WM_MBUTTONDOWN 0x0207
#define WM_MBUTTONUP 0x0208
#define WM_MDIACTIVATE 0x0222
#define WM_MDICASCADE 0x0227
#define WM_MDICREATE 0x0220
#define WM_MDIDESTROY 0x0221
#define WM_MDIGETACTIVE 0x0229
#define WM_MDIICONARRANGE 0x0228
#define WM_MDIMAXIMIZE 0x0225
#define WM_MDINEXT 0x0224
#define WM_MDIREFRESHMENU 0x0234
#define WM_MDIRESTORE 0x0223
#define WM_MDISETMENU 0x0230
#define WM_MDITILE 0x0226
#define WM_MEASUREITEM 0x002C
#define WM_MENUCHAR 0x0120
#define WM_MENUCOMMAND 0x0126
#define WM_MENUDRAG 0x0123
#define WM_MENUGETOBJECT 0x0124
#define WM_MENURBUTTONUP 0x0122
#define WM_MENUSELECT 0x011F
#define WM_MOUSEACTIVATE 0x0021
#define WM_MOUSEFIRST 0x0200
#define WM_MOUSEHOVER 0x02A1
#define WM_MOUSEHWHEEL 0x020e
#define WM_MOUSELAST 0x020e
#define WM_MOUSELEAVE 0x02A3
#define WM_MOUSEMOVE 0x0200
#define WM_MOUSEWHEEL 0x020A
#define WM_MOVE 0x0003
#define WM_MOVING 0x0216
#define WM_NCACTIVATE 0x0086
#define WM_NCCALCSIZE 0x0083
#define WM_NCCREATE 0x0081
#define WM_NCDESTROY 0x0082
#define WM_NCHITTEST 0x0084
#define WM_NCLBUTTONDBLCLK 0x00A3
#define WM_NCLBUTTONDOWN 0x00A1
#define WM_NCLBUTTONUP 0x00A2
#define WM_NCMBUTTONDBLCLK 0x00A9
#define WM_NCMBUTTONDOWN 0x00A7
#define WM_NCMBUTTONUP 0x00A8
#define WM_NCMOUSEHOVER 0x02A0
#define WM_NCMOUSELEAVE 0x02A2
#define WM_NCMOUSEMOVE 0x00A0
#define WM_NCPAINT 0x0085
#define WM_NCPOINTERDOWN 0x0242
#define WM_NCPOINTERUP 0x0243
#define WM_NCPOINTERUPDATE 0x0241
#define WM_NCRBUTTONDBLCLK 0x00A6
#define WM_NCRBUTTONDOWN 0x00A4
#define WM_NCRBUTTONUP 0x00A5
#define WM_NCXBUTTONDBLCLK 0x00AD
#define WM_NCXBUTTONDOWN 0x00AB
#define WM_NCXBUTTONUP 0x00AC
#define WM_NEXTDLGCTL 0x0028
#define WM_NEXTMENU 0x0213
#define WM_NOTIFY 0x004E
#define WM_NOTIFYFORMAT 0x0055
#define WM_NULL 0x0000
#define WM_PAINT 0x000F
#define WM_PAINTCLIPBOARD 0x0309
#define WM_PAINTICON 0x0026
#define WM_PALETTECHANGED 0x0311
#define WM_PALETTEISCHANGING 0x0310
#define WM_PARENTNOTIFY 0x0210
#define WM_PENWINFIRST 0x0380
#define WM_PENWINLAST 0x038F
#define WM_POINTERACTIVATE 0x024b
#define WM_POINTERCAPTURECHANGED 0x024c
#define WM_POINTERDEVICECHANGE 0x238
#define WM_POINTERDEVICEINRANGE 0x239
#define WM_POINTERDEVICEOUTOFRANGE 0x23a
#define WM_POINTERDOWN 0x0246
#define WM_POINTERENTER 0x0249
#define WM_POINTERHWHEEL 0x024f
#define WM_POINTERLEAVE 0x024a
#define WM_POINTERROUTEDAWAY 0x0252
#define WM_POINTERROUTEDRELEASED 0x0253
#define WM_POINTERROUTEDTO 0x0251
#define WM_POINTERUP 0x0247
#define WM_POINTERUPDATE 0x0245
#define WM_POINTERWHEEL 0x024e
#define WM_POWER 0x0048
#define WM_POWERBROADCAST 0x0218
#define WM_PRINT 0x0317
#define WM_PRINTCLIENT 0x0318
#define WM_QUERYDRAGICON 0x0037
#define WM_QUERYENDSESSION 0x0011
#define WM_QUERYNEWPALETTE 0x030F
#define WM_QUERYOPEN 0x0013
#define WM_QUERYUISTATE 0x0129
#define WM_QUEUESYNC 0x0023
#define WM_QUIT 0x0012
#define WM_RBUTTONDBLCLK 0x0206
#define WM_RBUTTONDOWN 0x0204
#define WM_RBUTTONUP 0x0205
#define WM_RENDERALLFORMATS 0x0306
#define WM_RENDERFORMAT 0x0305
#define WM_SETCURSOR 0x0020
#define WM_SETFOCUS 0x0007
#define WM_SETFONT 0x0030
#define WM_SETHOTKEY 0x0032
#define WM_SETICON 0x0080
#define WM_SETREDRAW 0x000B
#define WM_SETTEXT 0x000C
#define WM_SETTINGCHANGE (WM_WININICHANGE)
#define WM_SHOWWINDOW 0x0018
#define WM_SIZE 0x0005
#define WM_SIZECLIPBOARD 0x030B
#define WM_SIZING 0x0214
#define WM_SPOOLERSTATUS 0x002A
#define WM_STYLECHANGED 0x007D
#define WM_STYLECHANGING 0x007C
#define WM_SYNCPAINT 0x0088
#define WM_SYSCHAR 0x0106
#define WM_SYSCOLORCHANGE 0x0015
#define WM_SYSDEADCHAR 0x0107
#define WM_SYSKEYDOWN 0x0104
#define WM_SYSKEYUP 0x0105
#define WM_TABLET_FIRST 0x02c0
#define WM_TABLET_LAST 0x02df
#define WM_TCARD 0x0052
#define WM_THEMECHANGED 0x031A
#define WM_TIMECHANGE 0x001E
#define WM_TIMER 0x0113
#define WM_TOUCH 0x0240
#define WM_TOUCHHITTESTING 0x024d
#define WM_UNDO 0x0304
#define WM_UNICHAR 0x0109
#define WM_UNINITMENUPOPUP 0x0125
#define WM_UPDATEUISTATE 0x0128
#define WM_USER 0x0400
#define WM_USERCHANGED 0x0054
#define WM_VKEYTOITEM 0x002E
#define WM_VSCROLL 0x0115
#define WM_VSCROLLCLIPBOARD 0x030A
#define WM_WINDOWPOSCHANGED 0x0047
#define WM_WINDOWPOSCHANGING 0x0046
#define WM_WININICHANGE 0x001A
#define WM_WTSSESSION_CHANGE 0x02B1
#define WM_XBUTTONDBLCLK 0x020D
#define WM_XBUTTONDOWN 0x020B
#define WM_XBUTTONUP 0x020C
#define WRITE_RESTRICTED 0x8
#define WRITE_WATCH_FLAG_RESET 0x01
#define WS_ACTIVECAPTION 0x0001
#define WS_EX_LAYERED 0x00080000
