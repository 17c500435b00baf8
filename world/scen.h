// Generators and oracles shared by the World targets.
#ifndef SCEN_H
#define SCEN_H
#include "world.h"

// A frame of any type, channel and size an open session may carry.
// `maxFrame` bounds the whole frame, header and end octet included.
ref::Frame genFrame(pbt::Ctx &c, std::size_t maxFrame = 150000, std::size_t likely = 4000);
// A login with generated properties, credentials, tuning and segmentation.
LoginSpec genLogin(pbt::Ctx &c, const std::string &vhost, bool fancy = true);
// A plain login.
LoginSpec plainLogin(const std::string &vhost);

struct Flow {
    Bytes       whole;    // whole frames handed to the sender's socket queue
    Bytes       partial;  // started but unfinished frame
    std::size_t sent   = 0;  // of it
    std::size_t frames = 0;
    std::size_t base   = 0;  // bytes of data already there at open
};
// An open session and everything sent on it so far.
struct Sess {
    std::shared_ptr<Client>     cl;
    std::shared_ptr<BrokerConn> br;
    Flow                        up, down;  // client->broker, broker->client
    std::string                 vhost;
    bool                        dead = false;
};

// Logs in; fails the case unless the session opens on some broker.
Sess openSession(World &w, int port, const LoginSpec &s, bool tls = false,
                 const std::string &src = "");
// Sends n whole frames (and possibly leaves one unfinished) in one direction.
void sendFrames(World &w, Sess &s, bool up, std::size_t n, const Cutter &cut,
                std::size_t maxFrame = 150000, std::size_t likely = 4000);
void finishPartial(World &w, Sess &s, bool up, const Cutter &cut);
// Runs until everything sent has arrived (or cannot any more) and checks it.
void checkFlows(World &w, std::vector<Sess> &ss, const char *when, bool exact = true);
// One quick round trip both ways; fails if the session does not relay it.
void probe(World &w, Sess &s, const char *when);
// whether the text matches entirely one Close explaining x
inline bool contains(const std::string &h, const std::string &n)
{
    return h.find(n) != std::string::npos;
}
std::vector<std::string> lines(const std::string &s);
std::vector<std::string> words(const std::string &s);
std::string              lower(std::string s);
#endif
