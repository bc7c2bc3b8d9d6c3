PROPERTY = 'A01'
NEEDS = 'sideslip together with a large angle of attack'
BREAKS = 'the free-stream velocity reported with a flight condition uses a sideslip component scaled by the cosine of the angle of attack'
EDITS = [('objects/state.py', "                                             -sin(beta),\n", "                                             -cos(alpha)*sin(beta),\n")]
DEMO = '''
from pytornado.objects.state import FlightState
s = FlightState()
s.update_from_dict(aero=dict(airspeed=[50.0, 60.0], density=[1.2, 1.0], alpha=[0.0, 30.0], beta=[20.0, 20.0], rate_P=[0.0, 0.0], rate_Q=[0.0, 0.0], rate_R=[0.0, 0.0]))
s.idx_current_state = 1
a, b = math.radians(30.0), math.radians(20.0)
u = 60.0*np.array([math.cos(a)*math.cos(b), -math.sin(b), math.sin(a)*math.cos(b)])
expect(close(s.free_stream_velocity_vector, u), 'free-stream velocity')
'''
