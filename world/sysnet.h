#ifndef SYSNET_H
#define SYSNET_H
// Faults in socket calls, by port.  Ports of the fake brokers and of the proxy
// are unique on the machine while they are open, so no address is needed.
namespace sysnet {
enum { PEER_GONE = 10001, LOCAL_GONE, OPTIONS_FAIL };
// connecting to this port fails at once with that errno, or, for the values
// above, succeeds and fails in what is asked of the socket next; 0 clears
void failConnect(int port, int how);
// the next n connections waiting on this port fail to be accepted, with that
// errno, and stay waiting
void failAccept(int port, int n, int err);
int  acceptFailures();  // how many there were
void clear();
}
#endif
