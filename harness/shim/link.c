/* Only to find out whether a configuration built from the current source needs nothing beyond what the harness models. */
#include <stddef.h>
int BCryptGenRandom() { return 0; } int CryptAcquireContextA() { return 0; } int CryptAcquireContextW() { return 0; } int CryptGenRandom() { return 0; } int CryptReleaseContext() { return 0; } unsigned GetLastError() { return 0; } void SetLastError() {}
void os_arc4random() {} int os_em() { return 0; } int main() { return 0; }
