"""the message loops: every message is given to the handler of its type"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.contracts import EVENTKIND
from engine.intrinsics import decok
from contracts import client as cl, server as sv, coordinator as co
EV = {'SERVER_REGISTER': 1, 'SERVER_REGISTER_REPLY': 2, 'UPDATE_NEXT_HOP': 3, 'CLIENT_REGISTER_CONTROLLERSIDE': 4, 'CLIENT_REGISTER_SERVERSIDE': 5,
      'CLIENT_REGISTER_CONFIRMATION': 6, 'ANNOUNCEMENT': 8, 'VOTE': 11, 'ROUND_END': 12, 'VOTE_REPLY': 13, 'BCAST_PEDERSEN_H': 15, 'GN_HONESTY_CHALLENGE': 16,
      'GN_HONESTY_ANSWER': 17, 'UPDATE_PEDERSEN_H': 18, 'BCAST_PEDERSEN_RDIFF': 19, 'INIT_PEDERSEN_R': 20, 'POST_BRIDGE': 21, 'REQUEST_BRIDGES': 22,
      'SIGN_ASSIGNMENTS': 23, 'GOT_SIGNS': 24, 'ANNOUNCEMENT_FINALIZE': 25}
COORDINATOR = {'SERVER_REGISTER': 'handleServerRegister', 'UPDATE_PEDERSEN_H': 'handleUpdatePedersenH', 'CLIENT_REGISTER_CONTROLLERSIDE': 'handleClientRegisterControllerSide',
               'CLIENT_REGISTER_SERVERSIDE': 'handleClientRegisterServerSide', 'GN_HONESTY_CHALLENGE': 'handleGnHonestyChallenge', 'POST_BRIDGE': 'handlePostBridge',
               'REQUEST_BRIDGES': 'handleRequestBridges', 'GOT_SIGNS': 'handleGotSignatures', 'VOTE': 'handleVote', 'ROUND_END': 'handleRoundEnd', 'ANNOUNCEMENT': 'handleAnnouncement'}
SERVER = {'SERVER_REGISTER_REPLY': 'handleServerRegisterReply', 'ANNOUNCEMENT': 'handleAnnouncement', 'ANNOUNCEMENT_FINALIZE': 'handleAnnouncementFinalize',
          'SIGN_ASSIGNMENTS': 'handleSignAssignments', 'UPDATE_NEXT_HOP': 'handleUpdateNextHop', 'CLIENT_REGISTER_SERVERSIDE': 'handleClientRegisterServerSide',
          'ROUND_END': 'handleRoundEnd', 'BCAST_PEDERSEN_H': 'handleBroadcastPedersenH'}
CLIENT = {'CLIENT_REGISTER_CONFIRMATION': 'handleRegisterConfirmation', 'INIT_PEDERSEN_R': 'handleInitPedersenR', 'GN_HONESTY_ANSWER': 'handleGnHonestyAnswer',
          'ANNOUNCEMENT_FINALIZE': 'handleAnnouncementFinalize', 'GOT_SIGNS': 'handleGotSignatures', 'VOTE': 'handleVotePhaseStart', 'ROUND_END': 'handleRoundEnd',
          'BCAST_PEDERSEN_RDIFF': 'handleBroadcastPedersenRDiff', 'VOTE_REPLY': 'handleVoteReply'}
def dispatch(c, buf, node, pkg, table):
    if not c.case(decok(EVENTKIND, buf)): return c.stops()
    d = T.dec(EVENTKIND, buf, 'Rec')
    kind, params, src = T.recget(d, 0, 'Int'), T.recget(d, 1, 'Map'), T.recget(d, 2, 'Str')
    if not c.case(T.uf('resolvable', 'Bool', src)): return c.stops()
    addr = T.uf('canon', 'Str', src)
    for name, h in table.items():
        if c.case(eq(kind, I(EV[name]))):
            c.calls(pkg + h, lambda i, t: params if c.E.p.kind(t) == 'map' else addr if t == '*net.TCPAddr' else node)
            break
    c.ret()
def names(pkg, table): return [pkg + h for h in table.values()]
@contract(co.CN + 'Handle', stubs=names(co.CN, COORDINATOR))
def coordinator(c, buf, node):
    """the coordinator: the handler of the message type gets parameters and sender; an unknown type has no effect"""
    c.setglob(co.CN + 'anonCoordinator', '*' + co.CO, node)
    dispatch(c, buf, node, co.CN, COORDINATOR)
@contract(sv.SN + 'Handle', stubs=names(sv.SN, SERVER))
def server(c, buf, node):
    """a server: the handler of the message type gets parameters and sender; an unknown type has no effect"""
    c.setglob(sv.SN + 'anonServer', '*' + sv.SV, node)
    dispatch(c, buf, node, sv.SN, SERVER)
@contract(cl.CL + 'Handle', stubs=names(cl.CL, CLIENT))
def client(c, buf, node):
    """a client: the handler of the message type gets parameters and the client; an unknown type has no effect"""
    dispatch(c, buf, node, cl.CL, CLIENT)
