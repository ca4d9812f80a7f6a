// Stand-in for the simulation environment's message publisher: records what is published.
#ifndef VERIF_MESSAGE_PROTO_H
#define VERIF_MESSAGE_PROTO_H
#define MSG_NORMAL 0
#define MSG_INFO 1
#define MSG_WARNING 2
#define MSG_ERROR 3
extern "C" int message_publish(int level, const char* fmt, ...);
#endif
