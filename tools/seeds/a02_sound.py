PROPERTY = 'A02'
NEEDS = 'Mach number and altitude given, with different altitudes in one table'
BREAKS = 'the airspeed of every entry is computed with the speed of sound at the altitude of the first entry'
EDITS = [('objects/state.py', "self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound\n", "self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound.flat[0]\n")]
DEMO = '''
from pytornado.objects.state import FlightState
from ambiance import Atmosphere
s = FlightState()
s.update_from_dict(aero=dict(mach=[0.3, 0.3], altitude=[0.0, 8000.0], alpha=[1.0, 1.0], beta=[0.0, 0.0], rate_P=[0.0, 0.0], rate_Q=[0.0, 0.0], rate_R=[0.0, 0.0]))
expect(close(s.aero['airspeed'], 0.3*Atmosphere([0.0, 8000.0]).speed_of_sound, 1e-9), 'airspeed = Mach times speed of sound')
'''
