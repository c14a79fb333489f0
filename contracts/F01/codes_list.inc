CODE(CMD_IGNORE, 0)
CODE(CMD_INVALID, 1010101)
CODE(CMD_TICK, 1)
CODE(CMD_REG_BROKER, -268435496)
CODE(CMD_PRIORITY_DISCONNECT, -3)
CODE(CMD_USER_DISCONNECT, 2)
CODE(CMD_TIMEOUT_DISCONNECT, 1003)
CODE(CMD_GLOBAL_DISCONNECT, 1002)
CODE(CMD_DISCONNECT, 3)
CODE(CMD_DISCONNECT_NAME, 4)
CODE(CMD_DISCONNECT_CHECK, 5)
CODE(CMD_DISCONNECT_FED, 6)
CODE(CMD_BROADCAST_DISCONNECT, 7)
CODE(CMD_DISCONNECT_CORE, 8)
CODE(CMD_DISCONNECT_BROKER, 9)
CODE(CMD_DISCONNECT_FED_ACK, 1006)
CODE(CMD_DISCONNECT_CORE_ACK, 1008)
CODE(CMD_DISCONNECT_BROKER_ACK, 1009)
CODE(CMD_CONNECTION_ERROR, 2034)
CODE(CMD_CHECK_CONNECTIONS, 297)
CODE(CMD_PING, 298)
CODE(CMD_PING_PRIORITY, -298)
CODE(CMD_BROKER_PING, 306)
CODE(CMD_PING_REPLY, 299)
CODE(CMD_BROKER_SETUP, -1)
CODE(CMD_BROKER_LOCATION, 268435399)
CODE(CMD_INIT, 10)
CODE(CMD_INIT_NOT_READY, 12)
CODE(CMD_INIT_GRANT, 11)
CODE(CMD_TIMING_INFO, 310)
CODE(CMD_EXEC_REQUEST, 20)
CODE(CMD_EXEC_GRANT, 22)
CODE(CMD_EXEC_CHECK, 24)
CODE(CMD_REG_ROUTE, -15)
CODE(CMD_ROUTE_ACK, -16)
CODE(CMD_STOP, 30)
CODE(CMD_TERMINATE_IMMEDIATELY, 31)
CODE(CMD_TIME_REQUEST, 500)
CODE(CMD_TIME_GRANT, 35)
CODE(CMD_FORCE_TIME_GRANT, 525)
CODE(CMD_TIME_CHECK, 36)
CODE(CMD_GRANT_TIMEOUT_CHECK, 439)
CODE(CMD_REQUEST_CURRENT_TIME, 38)
CODE(CMD_USER_RETURN, 535)
CODE(CMD_TIME_BLOCK, 40)
CODE(CMD_TIME_UNBLOCK, 41)
CODE(CMD_TIME_BARRIER_REQUEST, 42)
CODE(CMD_TIME_BARRIER, 43)
CODE(CMD_TIME_BARRIER_CLEAR, 44)
CODE(CMD_SEND_MESSAGE, 268435476)
CODE(CMD_SEND_FOR_FILTER, 268435486)
CODE(CMD_SEND_FOR_FILTER_AND_RETURN, 268435491)
CODE(CMD_SEND_FOR_DEST_FILTER_AND_RETURN, 268435487)
CODE(CMD_NULL_MESSAGE, 726)
CODE(CMD_NULL_DEST_MESSAGE, 730)
CODE(CMD_FILTER_RESULT, 268435496)
CODE(CMD_DEST_FILTER_RESULT, 268435497)
CODE(CMD_PUB, 52)
CODE(CMD_LOG, 55)
CODE(CMD_REMOTE_LOG, 2055)
CODE(CMD_WARNING, 9990)
CODE(CMD_ERROR, 10000)
CODE(CMD_GLOBAL_ERROR, 10005)
CODE(CMD_LOCAL_ERROR, 10003)
CODE(CMD_ERROR_CHECK, 10001)
CODE(CMD_RESEND, 121212)
CODE(CMD_REG_PUB, 268435506)
CODE(CMD_ADD_PUBLISHER, 50)
CODE(CMD_REG_INPUT, 268435526)
CODE(CMD_ADD_SUBSCRIBER, 70)
CODE(CMD_REG_TRANSLATOR, 268435536)
CODE(CMD_ADD_NAMED_ENDPOINT, 107)
CODE(CMD_ADD_NAMED_FILTER, 105)
CODE(CMD_ADD_NAMED_PUBLICATION, 106)
CODE(CMD_ADD_NAMED_INPUT, 104)
CODE(CMD_REMOVE_NAMED_ENDPOINT, 127)
CODE(CMD_REMOVE_NAMED_FILTER, 125)
CODE(CMD_REMOVE_NAMED_PUBLICATION, 126)
CODE(CMD_REMOVE_NAMED_INPUT, 124)
CODE(CMD_REMOVE_ENDPOINT, 137)
CODE(CMD_REMOVE_FILTER, 135)
CODE(CMD_REMOVE_PUBLICATION, 136)
CODE(CMD_REMOVE_SUBSCRIBER, 134)
CODE(CMD_CLOSE_INTERFACE, 133)
CODE(CMD_DATA_LINK, 268436163)
CODE(CMD_FILTER_LINK, 268436165)
CODE(CMD_ENDPOINT_LINK, 268436167)
CODE(CMD_ADD_ALIAS, 268436171)
CODE(CMD_REG_ENDPOINT, 268435546)
CODE(CMD_ADD_ENDPOINT, 90)
CODE(CMD_REG_DATASINK, 268435551)
CODE(CMD_REG_FILTER, 268435516)
CODE(CMD_ADD_FILTER, 62)
CODE(CMD_SEARCH_DEPENDENCY, 1464)
CODE(CMD_ADD_DEPENDENCY, 140)
CODE(CMD_REMOVE_DEPENDENCY, 141)
CODE(CMD_ADD_DEPENDENT, 144)
CODE(CMD_REMOVE_DEPENDENT, 145)
CODE(CMD_ADD_INTERDEPENDENCY, 148)
CODE(CMD_REMOVE_INTERDEPENDENCY, 149)
CODE(CMD_REG_FED, -105)
CODE(CMD_BROKER_ACK, -27)
CODE(CMD_FED_ACK, -25)
CODE(CMD_PROTOCOL_PRIORITY, -60000)
CODE(CMD_PROTOCOL, 60000)
CODE(CMD_PROTOCOL_BIG, 268495456)
CODE(CMD_FED_CONFIGURE_TIME, 202)
CODE(CMD_FED_CONFIGURE_INT, 203)
CODE(CMD_FED_CONFIGURE_FLAG, 204)
CODE(CMD_INTERFACE_CONFIGURE, 209)
CODE(CMD_CORE_CONFIGURE, 207)
CODE(CMD_BROKER_CONFIGURE, 211)
CODE(CMD_BASE_CONFIGURE, 213)
CODE(CMD_INTERFACE_TAG, 218)
CODE(CMD_CORE_TAG, 220)
CODE(CMD_BROKER_TAG, 222)
CODE(CMD_PROFILER_DATA, 496)
CODE(CMD_SET_PROFILER_FLAG, 498)
CODE(CMD_ACK, 254)
CODE(CMD_PRIORITY_ACK, -254)
CODE(CMD_QUERY, -268435493)
CODE(CMD_QUERY_ORDERED, 937)
CODE(CMD_BROKER_QUERY, -37)
CODE(CMD_BROKER_QUERY_ORDERED, 939)
CODE(CMD_INTERFACE_QUERY, -39)
CODE(CMD_QUERY_REPLY, -268435494)
CODE(CMD_QUERY_REPLY_ORDERED, 942)
CODE(CMD_SET_GLOBAL, -268435511)
CODE(CMD_SEND_COMMAND, -95)
CODE(CMD_SEND_COMMAND_ORDERED, 95)
CODE(CMD_COMMAND_RESPONSE, -98)
CODE(CMD_COMMAND_RESPONSE_ORDERED, 98)
CODE(CMD_MULTI_MESSAGE, 1037)
