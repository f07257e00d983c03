#pragma once
#include <windows.h>
typedef enum { NOT_USED_ACCESS = 0, GRANT_ACCESS, SET_ACCESS, DENY_ACCESS, REVOKE_ACCESS } ACCESS_MODE;
typedef enum { NO_MULTIPLE_TRUSTEE } MULTIPLE_TRUSTEE_OPERATION;
typedef enum { TRUSTEE_IS_SID, TRUSTEE_IS_NAME, TRUSTEE_BAD_FORM } TRUSTEE_FORM;
typedef enum { TRUSTEE_IS_UNKNOWN, TRUSTEE_IS_USER, TRUSTEE_IS_GROUP, TRUSTEE_IS_WELL_KNOWN_GROUP = 5 } TRUSTEE_TYPE;
typedef enum { SE_UNKNOWN_OBJECT_TYPE = 0, SE_FILE_OBJECT, SE_SERVICE, SE_PRINTER, SE_REGISTRY_KEY, SE_LMSHARE, SE_KERNEL_OBJECT } SE_OBJECT_TYPE;
#define NO_INHERITANCE 0
typedef struct _TRUSTEE_W { struct _TRUSTEE_W *pMultipleTrustee; MULTIPLE_TRUSTEE_OPERATION MultipleTrusteeOperation; TRUSTEE_FORM TrusteeForm; TRUSTEE_TYPE TrusteeType; LPWSTR ptstrName; } TRUSTEE_W;
typedef struct { DWORD grfAccessPermissions; ACCESS_MODE grfAccessMode; DWORD grfInheritance; TRUSTEE_W Trustee; } EXPLICIT_ACCESSW, *PEXPLICIT_ACCESSW;
typedef EXPLICIT_ACCESSW EXPLICIT_ACCESS;
DWORD SetEntriesInAclW(ULONG, PEXPLICIT_ACCESSW, PACL, PACL *);
DWORD GetSecurityInfo(HANDLE, SE_OBJECT_TYPE, SECURITY_INFORMATION, PSID *, PSID *, PACL *, PACL *, PSECURITY_DESCRIPTOR *);
