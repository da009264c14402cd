// The Volvo ECUs and trouble codes the program documents (snapshot used as oracle).
#pragma once
#include <cstdint>
namespace v850 {
struct E { int addr; const char *name, *desc, *prefix; };
struct D { int addr, raw, suffix; const char *desc, *tips; };
inline const E ecus[] = {
	{ 0x01, "abs", "antilock brakes", "ABS" },
	{ 0x10, "m44old", "Motronic M4.4 engine management (old protocol)", "EFI" },
	{ 0x11, "msa", "MSA 15.7 engine management (diesel vehicles)", "EFI" },
	{ 0x18, "add", "912-D fuel-driven heater (cold climate option)", "HEA" },
	{ 0x29, "ecc", "electronic climate control", "ECC" },
	{ 0x2d, "vgla", "alarm", "GLA" },
	{ 0x2e, "psl", "left power seat", "PSL" },
	{ 0x2f, "psr", "right power seat", "PSR" },
	{ 0x41, "immo", "immobilizer", "IMM" },
	{ 0x51, "combi", "combined instrument panel", "CI" },
	{ 0x58, "srs", "airbags", "SRS" },
	{ 0x6e, "aw50", "AW50-42 transmission", "AT" },
	{ 0x7a, "m44", "Motronic M4.4 engine management", "EFI" },
};
inline const D dtcs[] = {
	{ 0x01, 0x05, 313, "Left Rear Wheel Sensor, open/short?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x10, 311, "Left Front Wheel Sensor, open/short", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x11, 321, "Left Front Wheel Sensor, irregular > 25 mph", "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x12, -1, "Left Front Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x13, 211, "Left Front Wheel Sensor, wrong wheel speed", "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x14, 221, "Left Front Wheel Sensor, ABS control phase too long", "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x15, -1, "Left Front Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x20, 312, "Right Front Wheel Sensor, open/short", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x21, 322, "Right Front Wheel Sensor, irregular > 25 mph", "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x22, -1, "Right Front Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x23, 212, "Right Front Wheel Sensor, wrong wheel speed", "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x24, 222, "Right Front Wheel Sensor, ABS control phase too long", "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x25, -1, "Right Front Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x30, 313, "Left Rear Wheel Sensor, open/short", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x31, 323, "Left Rear Wheel Sensor, irregular > 25 mph", "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x32, -1, "Left Rear Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x33, 213, "Left Rear Wheel Sensor, wrong wheel speed", "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch, or stuck emergency brake" },
	{ 0x01, 0x34, 223, "Left Rear Wheel Sensor, ABS control phase too long", "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x35, -1, "Left Rear Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x40, 314, "Right Rear Wheel Sensor, open/short", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x41, 324, "Right Rear Wheel Sensor, irregular > 25 mph", "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x42, -1, "Right Rear Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x43, 214, "Right Rear Wheel Sensor, wrong wheel speed", "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch, or stuck emergency brake" },
	{ 0x01, 0x44, 224, "Right Rear Wheel Sensor, ABS control phase too long", "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch" },
	{ 0x01, 0x45, -1, "Right Rear Wheel Sensor?", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x50, 411, "Left Front Wheel Inlet Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x51, 413, "Right Front Wheel Inlet Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x52, 421, "Rear Wheels Inlet Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x54, 412, "Left Front Wheel Return Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x55, 414, "Right Front Wheel Return Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x56, 422, "Rear Wheels Return Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x60, 423, "TRACS Valve, circuit open/short", "bad wiring, hydraulic modulator, ABS module, or ignition switch" },
	{ 0x01, 0x61, 424, "TRACS Pressure Switch, circuit open/short?", "or bad wiring, hydraulic modulator, brake light switch, ABS module, ignition switch, or blown fuse 12 (STOP LAMPS)" },
	{ 0x01, 0x64, 141, "Brake Pedal Sensor, short", "or bad ABS module solders, wiring, brake pedal sensor, or ignition switch" },
	{ 0x01, 0x65, 142, "Brake Light/Pedal Switch, open/short or adjustment", "or brake light bulb, bad ABS module solders, wiring, or ignition switch" },
	{ 0x01, 0x66, 144, "TRACS Disengaged to Avoid Front Brake Discs Overheating", nullptr },
	{ 0x01, 0x67, 143, "Missing or Faulty Vehicle Speed Signal from ABS module", "or bad ABS module solders, ABS module memory fault, or otherwise faulty ABS module or ignition switch" },
	{ 0x01, 0x70, 443, "Pump motor fault", "or fuse 9 (ABS PUMP MOTOR), pump power plug not seated properly, bad wiring (eg, insulation that falls off, any short/open), bad ABS module solders, combination relay, hydraulic modulator, ignition switch\n\nAdvanced command(s) ABS tests may not be able to be used if this code has been set.\n\nS40/V40 with Chassis number up to 414999 has defective power supply cable if ABS-441 and ABS-443 has been detected at the same time.\n Cable Harness -1997 P/N 30618007\nCable Harness 98-1999 P/N 30889999" },
	{ 0x01, 0x72, 431, "ABS Module, general hardware fault", "or bad ABS module solders or ignition switch" },
	{ 0x01, 0x75, 432, "ABS Module, general interference fault", "or bad ABS module solders or ignition switch; see 'https://www.matthewsvolvosite.com/forums/viewtopic.php?f=1&t=78577&start=30#p428745'" },
	{ 0x01, 0x77, 433, "Battery Voltage, too high", nullptr },
	{ 0x01, 0x80, 441, "ABS Microprocessors, redundant calculations mismatch", "or fuse 14 (ABS MAIN SUPPLY), bad ABS module solders, wheel sensor wiring close to interference, ignition switch\nS40/V40 with Chassis number up to 414999 has defective power supply cable if ABS 441 and ABS 443 has been detected at the same time.\n Cable Harness up to 1997 P/N 30618007\nCable Harness 98 to 1999 P/N 30889999" },
	{ 0x01, 0x81, 444, "ABS Module, internal valve reference voltage error or no power to hydraulic valves?", "or bad wiring, bad ABS module solders, combination relay, hydraulic modulator, ignition switch, or bad ABS module" },
	{ 0x01, 0x82, 442, "ABS Module, leakage current or Hydraulic Modulator Pump Pressure, too low?", "or bad wiring, bad ABS module solders, combination relay, hydraulic modulator, ignition switch, or bad ABS module" },
	{ 0x01, 0x83, 445, "ABS Module, either inlet or return valve circuit fault?", "or bad wiring, bad ABS module solders, combination relay, hydraulic modulator, ignition switch, or bad ABS module" },
	{ 0x02, 0x01, 131, "Torque reduction signal, signal faulty", nullptr },
	{ 0x02, 0x02, 231, "Throttle position sensor signal, signal missing", nullptr },
	{ 0x02, 0x03, 232, "Throttle position sensor signal, signal faulty", nullptr },
	{ 0x02, 0x04, 233, "DTC stored in engine control module", nullptr },
	{ 0x02, 0x05, 221, "Load signal missing", "DSA control module registers no pulses from engine control module for approx. 1.5 seconds. Possibility Open circuit, short circuit, contact resistance. DSA warning light and DSA is disengaged." },
	{ 0x02, 0x06, 222, "Load signal, signal faulty", nullptr },
	{ 0x02, 0x07, 223, "Initiating engine control module, signal faulty", nullptr },
	{ 0x02, 0x08, 224, "DTC stored in engine control module", nullptr },
	{ 0x02, 0x09, 311, "Wheel speed signal left front wheel, signal faulty", nullptr },
	{ 0x02, 0x0a, 312, "Wheel speed signal right front wheel, signal faulty", nullptr },
	{ 0x02, 0x0b, 313, "Wheel speed signal left rear wheel, signal faulty", nullptr },
	{ 0x02, 0x0c, 314, "Wheel speed signal right rear wheel, signal faulty/missing from ABS control module", "Signal is usually pulsed between 0V and battery voltage with freq. changes comparable to the wheel speed.\nFault code is registered at above speed 8km/h if the increase of speed of wheel is too great or too little or if other wheel is locked this can cause as well fault code. Notice code may be stored if power supply / ground terminal for ABS control module is defective." },
	{ 0x02, 0x0d, 212, "Brake light switch, signal faulty", "When Brake light switch is not activated the DSA/signal is grounded via brake light bulbs and when activated the switch (and bulbs) receive battery voltage. If ground is lost when engine is running or signal voltage is too low (compared to battery) when activated fault code is stored." },
	{ 0x02, 0x0e, 211, "Brake light switch, signal too high", nullptr },
	{ 0x02, 0x0f, 121, "DSA switch, Signal too low", nullptr },
	{ 0x02, 0x10, 122, "DSA Warning lamp, signal faulty", nullptr },
	{ 0x02, 0x11, 112, "Control Module, EEPROM fault", nullptr },
	{ 0x10, 0x54, 445, "Pulsed secondary air injection system pump signal", nullptr },
	{ 0x11, 0x00, 131, "Engine Speed signal", nullptr },
	{ 0x11, 0x01, 719, "Secondary Engine Speed signal", nullptr },
	{ 0x11, 0x02, 132, "Battery Voltage", nullptr },
	{ 0x11, 0x03, 711, "Needle Lift sensor signal", nullptr },
	{ 0x11, 0x04, 732, "Accelerator Pedal Position sensor signal", nullptr },
	{ 0x11, 0x05, 123, "Engine Coolant Temperature sensor signal", nullptr },
	{ 0x11, 0x06, 122, "Intake Air Temperature sensor signal", nullptr },
	{ 0x11, 0x08, 712, "Fuel Temperature sensor signal", nullptr },
	{ 0x11, 0x09, 415, "Boost Pressure sensor signal", nullptr },
	{ 0x11, 0x0a, 112, "Barometric Pressure signal", nullptr },
	{ 0x11, 0x0a, 112, "Fault in Engine Control Module Barometric Pressure signal", nullptr },
	{ 0x11, 0x0b, 121, "Mass Air Flow sensor signal", nullptr },
	{ 0x11, 0x0c, 743, "Cruise Control switch signal", nullptr },
	{ 0x11, 0x0d, 112, "Fault in Engine Control Module Reference Voltage", nullptr },
	{ 0x11, 0x0f, 112, "Fault in Engine Control Module", nullptr },
	{ 0x11, 0x10, 311, "Vehicle Speed signal discrepancy", "neither cruise control nor A/C will activate, possibly due to VSS fault, COMBI->ECM fault, or COMBI fault" },
	{ 0x11, 0x11, 235, "Exhaust gas recirculation controller signal", nullptr },
	{ 0x11, 0x12, 242, "Turbocharger Control Valve signal", nullptr },
	{ 0x11, 0x14, 515, "Engine Coolant Fan, high speed signal", nullptr },
	{ 0x11, 0x19, 713, "Injection Timing, Advance Control Valve signal", nullptr },
	{ 0x11, 0x1a, 323, "Malfunction Indicator Lamp circuit fault", nullptr },
	{ 0x11, 0x1b, 721, "Glowplug Indicator Lamp signal", nullptr },
	{ 0x11, 0x20, 714, "Fuel Shut-off Valve signal", nullptr },
	{ 0x11, 0x21, 730, "Brake Pedal Switch signal", nullptr },
	{ 0x11, 0x22, 731, "Clutch Switch signal", nullptr },
	{ 0x11, 0x23, 724, "Engine Coolant Heater Relay signal", nullptr },
	{ 0x11, 0x24, 112, "Memory Fault (ROM) In Engine Control Module", nullptr },
	{ 0x11, 0x26, 514, "Engine Coolant Fan, low speed signal", nullptr },
	{ 0x11, 0x2a, 725, "Main Relay signal", nullptr },
	{ 0x11, 0x2b, 715, "Fuel Regulation", "EVRY mod?" },
	{ 0x11, 0x2d, 726, "Terminal 15-supply to Engine Control Module", nullptr },
	{ 0x11, 0x2e, 716, "Fuel Quantity Actuator signal", "EVRY mod? / change fuel filter" },
	{ 0x11, 0x2f, 718, "Ignition Timing Control", nullptr },
	{ 0x11, 0x30, 335, "Communication failure between TCM and ECM", nullptr },
	{ 0x11, 0x31, 353, "Communication failure with Immobilizer", nullptr },
	{ 0x11, 0x32, 742, "Communication failure between TCM and ECM", nullptr },
	{ 0x11, 0x33, 225, "A/C Pressure sensor signal", nullptr },
	{ 0x11, 0x34, 717, "Fuel Quantity Regulator Position sensor signal", "EVRY mod?" },
	{ 0x11, 0x36, 732, "Accelerator pedal position sensor signal", nullptr },
	{ 0x11, 0xfe, 131, "Engine Speed signal", nullptr },
	{ 0x18, 0x31, 801, "Coolant Temperature Sensor, Signal too High", nullptr },
	{ 0x18, 0x32, 802, "Coolant Temperature Sensor, Signal too Low", nullptr },
	{ 0x18, 0x33, 803, "Coolant Temperature Sensor, Signal faulty", nullptr },
	{ 0x18, 0x34, 142, "Outside Temperature Sensor, Signal too High", nullptr },
	{ 0x18, 0x35, 143, "Outside Temperature Sensor, Signal too Low", nullptr },
	{ 0x18, 0x36, 811, "Flame Sensor, Signal too Low during run", nullptr },
	{ 0x18, 0x37, 899, "Factory set DTC, no fault with heater", nullptr },
	{ 0x18, 0x38, 812, "Flame Sensor, Signal too High during start", nullptr },
	{ 0x18, 0x39, 813, "Flame Sensor, Signal too High", nullptr },
	{ 0x18, 0x3a, 821, "Water Pump, Signal too High", nullptr },
	{ 0x18, 0x3b, 822, "Water Pump, Signal too Low", nullptr },
	{ 0x18, 0x3c, 814, "Combustion fan, Signal too High", nullptr },
	{ 0x18, 0x3d, 815, "Combustion fan, Signal too Low", nullptr },
	{ 0x18, 0x3e, 816, "Combustion fan, Faulty Signal", nullptr },
	{ 0x18, 0x3f, 825, "Fuel Pump, Signal too High", nullptr },
	{ 0x18, 0x40, 826, "Fuel Pump, Signal too Low", nullptr },
	{ 0x18, 0x41, 831, "Overheat Protection Thermostat, Signal too Low", nullptr },
	{ 0x18, 0x42, 841, "Power Supply, Short Circuit to Supply", nullptr },
	{ 0x18, 0x43, 842, "Power Supply, Open Circuit", nullptr },
	{ 0x18, 0x44, 851, "Blower Fan, Signal too High", nullptr },
	{ 0x18, 0x45, 852, "Blower Fan, Signal too Low", nullptr },
	{ 0x18, 0x46, 861, "Glow Plugs, Short or Open Circuit", nullptr },
	{ 0x18, 0x47, 843, "Control Module Power Supply, Signal too High", nullptr },
	{ 0x18, 0x48, 832, "Overheat Protection Thermostat, Faulty Signal", nullptr },
	{ 0x18, 0x49, 891, "Too many Unsuccessful Start Attempts", nullptr },
	{ 0x18, 0x4a, 113, "Control Module, Parameter Fault", nullptr },
	{ 0x18, 0x4b, 112, "Control Module, General Fault", nullptr },
	{ 0x18, 0x51, 898, "Factory set DTC, no fault with heater", nullptr },
	{ 0x29, 0x0a, 221, "Air distribution damper motor position sensor Signal Low", nullptr },
	{ 0x29, 0x0b, 222, "Air distribution damper motor position sensor Signal High", nullptr },
	{ 0x29, 0x13, 322, "Air distribution damper motor position, no position change", nullptr },
	{ 0x29, 0x1a, 432, "Blower Fan Switch, Signal too Low", nullptr },
	{ 0x29, 0x1b, 433, "Blower Fan Motor, Current too High", nullptr },
	{ 0x29, 0x1c, 411, "Blower fan motor power unit, Faulty Signal / seized or drawing excess current", "or blower fan obstruction, or power stage surge protector problem" },
	{ 0x29, 0x1f, 412, "Fan motor passenger comp temp sensor, Signal too Low / Short to Ground", nullptr },
	{ 0x29, 0x20, 121, "Outside Temperature Sensor, Signal too Low", nullptr },
	{ 0x29, 0x21, 122, "Outside Temperature Sensor, Signal too High", nullptr },
	{ 0x29, 0x22, 123, "Passenger compartment temperature sensor, Signal too Low", nullptr },
	{ 0x29, 0x23, 124, "Passenger compartment temperature sensor, Signal too High", nullptr },
	{ 0x29, 0x24, 135, "Engine Coolant Temperature Signal Missing", nullptr },
	{ 0x29, 0x25, 211, "Drivers side Temp damper motor position sensor Signal High", nullptr },
	{ 0x29, 0x26, 212, "Drivers side Temp damper motor position sensor Signal Low", nullptr },
	{ 0x29, 0x27, 231, "Passenger Side Temp damper motor position sensor Signal High", nullptr },
	{ 0x29, 0x28, 232, "Passenger Side Temp damper motor position sensor Signal Low", nullptr },
	{ 0x29, 0x29, 235, "Recirculation damper motor position sensor Signal High", nullptr },
	{ 0x29, 0x2a, 236, "Recirculation damper motor position sensor Signal Low", nullptr },
	{ 0x29, 0x2b, 311, "Drivers side Temp damper motor, open or short in pot circuit", nullptr },
	{ 0x29, 0x2c, 313, "Passenger side Temp damper motor, open or short in pot circuit", nullptr },
	{ 0x29, 0x2d, 317, "Air distribution damper motor, open or short in pot circuit", nullptr },
	{ 0x29, 0x2e, 315, "Recirculation damper motor, open or short in pot circuit", nullptr },
	{ 0x29, 0x2f, 312, "Drivers side temp damper motor, no position change", nullptr },
	{ 0x29, 0x30, 314, "Passenger side temp damper motor, no position change", "see 'ac heater system auto.pdf'" },
	{ 0x29, 0x31, 316, "Recirculation damper motor, no position change", nullptr },
	{ 0x29, 0x32, 143, "Passenger compartment temp selector Right, Signal Faulty", nullptr },
	{ 0x29, 0x33, 143, "Passenger compartment temp selector Left, Signal Faulty", nullptr },
	{ 0x29, 0x34, 431, "Blower Fan Switch, Signal too High", nullptr },
	{ 0x29, 0x35, 412, "Interior temperature sensor inlet fan, short to ground", "see 'ac heater system auto.pdf'" },
	{ 0x29, 0x36, 413, "Interior temperature sensor inlet fan, open circuit", "see 'ac heater system auto.pdf'" },
	{ 0x29, 0x37, 414, "Interior temperature sensor inlet fan, faulty signal", "carefully clean out any lint from temp sensor fan(s)" },
	{ 0x29, 0x38, 411, "Blower fan motor power unit, faulty signal", "or blower fan obstruction, or power stage surge protector problem" },
	{ 0x29, 0x3a, 420, "ECC Control Module, internal fault in memory circuits", nullptr },
	{ 0x29, 0x3b, 421, "ECC Control Module, internal fault in memory ROM circuits", nullptr },
	{ 0x29, 0x3c, 422, "Self-adjustment damper motors, Drivers temp failed", nullptr },
	{ 0x29, 0x3d, 423, "Self-adjustment damper motors, Passenger temp failed", nullptr },
	{ 0x29, 0x3e, 424, "Self-adjustment damper motors, Air distribution failed", nullptr },
	{ 0x29, 0x3f, 425, "Self-adjustment damper motors, Recirculation failed", nullptr },
	{ 0x29, 0x50, 441, "Program downloading, control module. Not Done", nullptr },
	{ 0x29, 0x51, 442, "Program downloading, control module. Faulty", nullptr },
	{ 0x2d, 0x41, 114, "Control Module, Fault in EEPROM", nullptr },
	{ 0x2d, 0x42, 512, "Drivers Door Lock Switch, Unlocking Signal too Low / Short to Ground", nullptr },
	{ 0x2d, 0x43, 521, "Drivers Central Locking Switch, Signal too Low / Short to Ground", nullptr },
	{ 0x2d, 0x49, 511, "Drivers Door Lock Switch, Locking Signal too Low / Short to Ground", nullptr },
	{ 0x2d, 0x4a, 311, "Siren, Faulty Signal", nullptr },
	{ 0x2d, 0x4c, 312, "Siren, Internal Battery Fault", nullptr },
	{ 0x2d, 0x4d, 321, "Siren, Fault In the Power Supply", nullptr },
	{ 0x2d, 0x4f, 415, "Left ultrasonic sensor, Signal Faulty", nullptr },
	{ 0x2d, 0x51, 416, "Left ultrasonic sensor, internal Fault", nullptr },
	{ 0x2d, 0x52, 531, "Courtesy Lighting, Signal too Low / Short to Ground", nullptr },
	{ 0x2d, 0x54, 421, "Glass breakage Sensor, Signal Faulty, to control module", nullptr },
	{ 0x2d, 0x55, 422, "Glass breakage Sensor, Signal Faulty, microphone circuit", nullptr },
	{ 0x2d, 0x56, 451, "Movement Sensor, Faulty Signal", nullptr },
	{ 0x2d, 0x57, 413, "Right ultrasonic sensor, Signal Faulty", nullptr },
	{ 0x2d, 0x58, 414, "Right ultrasonic sensor, internal Fault", nullptr },
	{ 0x2d, 0x59, 432, "Tilt sensor, Internal fault", nullptr },
	{ 0x2d, 0x60, 456, "SRS signal, Signal too Low / Short to Ground", nullptr },
	{ 0x2d, 0x61, 452, "ECC afterblow, Signal too High", nullptr },
	{ 0x2d, 0x62, 610, "Speed Signal Faulty", nullptr },
	{ 0x2d, 0x63, 441, "Resistive wire, Signal too High", nullptr },
	{ 0x2d, 0x64, 541, "Ignition Switch, Signal too Low", nullptr },
	{ 0x2d, 0x65, 431, "Tilt sensor, Signal too Low", nullptr },
	{ 0x2d, 0x66, 454, "Immobilizer, Signal too Low", nullptr },
	{ 0x2d, 0x67, 525, "Central Locking switch Passenger Door, Signal too Low", nullptr },
	{ 0x2d, 0x69, 522, "Internal Tailgate/Trunk Control Switch, Signal too Low", nullptr },
	{ 0x2d, 0x6a, 523, "External Tailgate/Trunk Lock Switch, Signal too Low", nullptr },
	{ 0x2d, 0x6c, 524, "Fuel Filler Lock Switch, Signal too Low", nullptr },
	{ 0x2d, 0x6d, 113, "Control Module, Control Module Not Programmed", nullptr },
	{ 0x2d, 0x6e, 455, "Immobilizer, VGLA code Signal Faulty", nullptr },
	{ 0x2e, 0x01, 112, "Legroom Motor 1, Pot signal too high", nullptr },
	{ 0x2e, 0x02, 121, "Backrest Motor 2, Pot signal too high", nullptr },
	{ 0x2e, 0x03, 122, "Seat Rear Edge Motor 3, Pot signal too high", nullptr },
	{ 0x2e, 0x04, 211, "Seat Front Edge Motor 4, Pot signal too high", nullptr },
	{ 0x2e, 0x05, 212, "Legroom Motor 1, Pot signal too low", nullptr },
	{ 0x2e, 0x06, 222, "Backrest Motor 2, Pot signal too low", nullptr },
	{ 0x2e, 0x07, 223, "Seat Rear Edge Motor 3, Pot signal too low", nullptr },
	{ 0x2e, 0x08, 312, "Seat Front Edge Motor 4, Pot signal too low", nullptr },
	{ 0x2e, 0x09, 123, "Legroom Motor 1 Movement when not activated", nullptr },
	{ 0x2e, 0x0a, 131, "Backrest Motor 2 Movement when not activated", nullptr },
	{ 0x2e, 0x0b, 132, "Seat Rear Edge Motor 3 Movement when not activated", nullptr },
	{ 0x2e, 0x0c, 133, "Seat Front Edge Motor 4 Movement when not activated", nullptr },
	{ 0x2e, 0x0d, 143, "Legroom Motor 1 moves in wrong direction", nullptr },
	{ 0x2e, 0x0e, 144, "Backrest Motor 2 moves in wrong direction", nullptr },
	{ 0x2e, 0x0f, 214, "Seat Rear Edge Motor 3 moves in wrong direction", nullptr },
	{ 0x2e, 0x10, 224, "Seat Front Edge Motor 4 moves in wrong direction", nullptr },
	{ 0x2e, 0x11, 323, "Memory 1, Fault in stored memory position", "try learn new position" },
	{ 0x2e, 0x12, 322, "Memory 2, Fault in stored memory position", "try learn new position" },
	{ 0x2e, 0x13, 321, "Memory 3, Fault in stored memory position", "try learn new position" },
	{ 0x2e, 0x14, 424, "Control Panel not connected (spurious; ignore)", nullptr },
	{ 0x2e, 0x15, 421, "Fault in control module", nullptr },
	{ 0x2e, 0x16, 422, "Battery Voltage too low", nullptr },
	{ 0x2e, 0x17, 423, "Control Panel button activated too long", nullptr },
	{ 0x2e, 0x18, 411, "Legroom Motor 1 not calibrated", nullptr },
	{ 0x2e, 0x19, 412, "Backrest Motor 2 not calibrated", nullptr },
	{ 0x2e, 0x1a, 413, "Seat Rear Edge Motor 3 not calibrated", nullptr },
	{ 0x2e, 0x1b, 414, "Seat Front Edge Motor 4 not calibrated", nullptr },
	{ 0x2e, 0x1c, 331, "Entry position not stored", nullptr },
	{ 0x2e, 0x1d, 332, "Original position not stored", nullptr },
	{ 0x2f, 0x01, 112, "Legroom Motor 1, Pot signal too high", nullptr },
	{ 0x2f, 0x02, 121, "Backrest Motor 2, Pot signal too high", nullptr },
	{ 0x2f, 0x03, 122, "Seat Rear Edge Motor 3, Pot signal too high", nullptr },
	{ 0x2f, 0x04, 211, "Seat Front Edge Motor 4, Pot signal too high", nullptr },
	{ 0x2f, 0x05, 212, "Legroom Motor 1, Pot signal too low", nullptr },
	{ 0x2f, 0x06, 222, "Backrest Motor 2, Pot signal too low", nullptr },
	{ 0x2f, 0x07, 223, "Seat Rear Edge Motor 3, Pot signal too low", nullptr },
	{ 0x2f, 0x08, 312, "Seat Front Edge Motor 4, Pot signal too low", nullptr },
	{ 0x2f, 0x09, 123, "Legroom Motor 1 Movement when not activated", nullptr },
	{ 0x2f, 0x0a, 131, "Backrest Motor 2 Movement when not activated", nullptr },
	{ 0x2f, 0x0b, 132, "Seat Rear Edge Motor 3 Movement when not activated", nullptr },
	{ 0x2f, 0x0c, 133, "Seat Front Edge Motor 4 Movement when not activated", nullptr },
	{ 0x2f, 0x0d, 143, "Legroom Motor 1 moves in wrong direction", nullptr },
	{ 0x2f, 0x0e, 144, "Backrest Motor 2 moves in wrong direction", nullptr },
	{ 0x2f, 0x0f, 214, "Seat Rear Edge Motor 3 moves in wrong direction", nullptr },
	{ 0x2f, 0x10, 224, "Seat Front Edge Motor 4 moves in wrong direction", nullptr },
	{ 0x2f, 0x11, 323, "Memory 1, Fault in stored memory position", "try learn new position" },
	{ 0x2f, 0x12, 322, "Memory 2, Fault in stored memory position", "try learn new position" },
	{ 0x2f, 0x13, 321, "Memory 3, Fault in stored memory position", "try learn new position" },
	{ 0x2f, 0x14, 424, "Control Panel not connected (spurious; ignore)", nullptr },
	{ 0x2f, 0x15, 421, "Fault in control module", nullptr },
	{ 0x2f, 0x16, 422, "Battery Voltage too low", nullptr },
	{ 0x2f, 0x17, 423, "Control Panel button activated too long", nullptr },
	{ 0x2f, 0x18, 411, "Legroom Motor 1 not calibrated", nullptr },
	{ 0x2f, 0x19, 412, "Backrest Motor 2 not calibrated", nullptr },
	{ 0x2f, 0x1a, 413, "Seat Rear Edge Motor 3 not calibrated", nullptr },
	{ 0x2f, 0x1b, 414, "Seat Front Edge Motor 4 not calibrated", nullptr },
	{ 0x2f, 0x1c, 331, "Entry position not stored", nullptr },
	{ 0x2f, 0x1d, 332, "Original position not stored", nullptr },
	{ 0x41, 0x01, 112, "Internal EEPROM memory fault", nullptr },
	{ 0x41, 0x02, -1, "Comm fault with engine ECU", nullptr },
	{ 0x41, 0x03, -1, "No Contact with Antenna", "Or wrong antenna. Ex. Immo2 on 850 has 8 Ohms, Immo3 on S/V40 has 3.3 Ohms, V70 has 5 Ohms as rough resistance measurement.\nAntenna is tuned inside IMMO with capacitors and resistors for antennas inductivity to create LC circuit.\nOther reasons:\nThe cable between control module Pin #9 or #10 is short to gnd or +12V." },
	{ 0x41, 0x04, -1, "No Response from Key Transponder", nullptr },
	{ 0x41, 0x05, -1, "Key Code not in memory", nullptr },
	{ 0x41, 0x06, 223, "Comm fault from Transponder to IMMO Control Module", nullptr },
	{ 0x41, 0x07, 336, "Control circuit to VGLA, fault in VGLA or LED circuit", "(P0600)" },
	{ 0x41, 0x30, 334, "Control circuit to Indicator Lamp, fault in circuit", nullptr },
	{ 0x41, 0x31, 335, "Starter Motor Control circuit, fault in circuit", nullptr },
	{ 0x41, 0x32, 324, "VERLOG code missing or mismatch", "ECM or CSM module coding" },
	{ 0x41, 0x33, 325, "Faulty Comms with coded starter module (CSM)", nullptr },
	{ 0x41, 0x34, 121, "PIN programming failed", nullptr },
	{ 0x41, 0x35, 225, "Fault Programming Key Code / Key Code verification failed", nullptr },
	{ 0x41, 0x36, 132, "No Key Codes in EEPROM", "Live data should say IMMO PROG as not NORM" },
	{ 0x41, 0x37, 122, "Immobilizer not yet programmed", "After entering the code this gets automatically erased" },
	{ 0x41, 0x38, 999, "EEPROM error", nullptr },
	{ 0x41, 0x51, 311, "Comms with engine ECU, short to supply in comm link 2 or 4", nullptr },
	{ 0x41, 0x52, 312, "Comms with engine ECU, short to ground in comm link 2 or 4", nullptr },
	{ 0x41, 0x53, 214, "Comms from engine ECU, wrong MIN code", "ie, Immobilizer is programmed for a different engine ECU" },
	{ 0x41, 0x54, 321, "Initiating signal from ECM, missing", nullptr },
	{ 0x41, 0x55, 326, "Reply signal from engine control module", nullptr },
	{ 0x41, 0xf7, 333, "Control circuit to VGLA, fault in VGLA or LED circuit", nullptr },
	{ 0x41, 0xf8, 336, "Control circuit to VGLA, fault in VGLA or LED circuit", "(P0600)" },
	{ 0x42, 0x03, 110, "Control Module, Internal Malfunction / Parameter faults, Intermittent fault", nullptr },
	{ 0x42, 0x04, 111, "Control Module, Internal Malfunction / Parameter faults, Permanent fault", nullptr },
	{ 0x42, 0x05, 120, "Convertible Top Position Sensor, Invalid Position", nullptr },
	{ 0x42, 0x06, 121, "Convertible Top Position Sensor, Angle fault", nullptr },
	{ 0x42, 0x07, 130, "Convertible Top Movement, Time Limit", "Movement is too slow" },
	{ 0x42, 0x08, 140, "Motor Relay, faulty signal", nullptr },
	{ 0x42, 0x09, 150, "Control Unit Power Supply, Signal too Low", "Battery voltage is < 9V for more than 1 seconds" },
	{ 0x42, 0x0a, 160, "Control Unit Power Supply, Signal too High", "Battery voltage is > 16V for more than 1 seconds" },
	{ 0x42, 0x0b, 170, "Control Unit Power Supply, Signal Missing", "Battery voltage missing for power supply" },
	{ 0x42, 0x10, 210, "Speed Signal, Signal missing", "No speed signal to the control module 10 seconds after the ignition is turned on -- Comes from COMBI/CDM" },
	{ 0x42, 0x13, 211, "Convertible Top Switch UP/DOWN, faulty signal", "Both signals at the same time or if one becomes continuously low." },
	{ 0x42, 0x14, 212, "Front Lock Micro Switch, faulty signal", "wrong signal from microswitch, jammed or shorted" },
	{ 0x42, 0x15, 213, "Front Latch Arm (rear) Micro Switch, faulty signal", "wrong signal from microswitch, jammed or shorted" },
	{ 0x42, 0x16, 214, "Front Latch Arm (front) Micro Switch, faulty signal", "wrong signal from microswitch, jammed or shorted" },
	{ 0x42, 0x17, 215, "Rear Latch Arm Micro Switch, faulty signal", "if tension bow striker plate is down in the rear hatches but none microswitches indicate open" },
	{ 0x42, 0x1a, 216, "Cover (latch) Micro Switch, faulty signal", "wrong signal from microswitch, jammed or shorted" },
	{ 0x42, 0x1b, 217, "Tension Bow Micro Switches, faulty signal", "wrong signal from microswitch, jammed or shorted" },
	{ 0x42, 0x20, 220, "Convertible Top Position Sensor, Signal too Low", nullptr },
	{ 0x42, 0x21, 221, "Convertible Top Position Sensor, Signal too High", nullptr },
	{ 0x42, 0x22, 222, "Rear Latch Arm Position Sensor, Signal too Low", nullptr },
	{ 0x42, 0x23, 223, "Rear Latch Arm Position Sensor, Signal too High", nullptr },
	{ 0x42, 0x30, 230, "Convertible Top Control Unit Outputs, Signal too High", "Warning Signal Buzzer, Trunk lid inhibitor, Side Windows Down, Heated Rear Window." },
	{ 0x42, 0x31, 231, "Air Conditioning Signal too Low", nullptr },
	{ 0x42, 0x32, 232, "Dashboard LED, Signal too Low", nullptr },
	{ 0x42, 0x40, 310, "Motors, Current too High", nullptr },
	{ 0x42, 0x41, 311, "Convertible Top, Closing, Current too High", nullptr },
	{ 0x42, 0x42, 312, "Convertible Top, Opening, Current too High", nullptr },
	{ 0x42, 0x43, 313, "Cover Closing, Current too High", "Missing signal from microswitch of cover locking arm results motor running longer." },
	{ 0x42, 0x44, 314, "Cover Opening, Current too High", "Cover plate lock running against a mechanical stop" },
	{ 0x42, 0x45, 315, "Rear Latch Arms, Closing, Current too High", "Motors for real locking arms and tensioner rib/bow are activated at the same time" },
	{ 0x42, 0x46, 316, "Rear Latch Arms, Opening, Current too High", nullptr },
	{ 0x42, 0x47, 317, "Front Lock, Closing, Current too High", nullptr },
	{ 0x42, 0x48, 318, "Front Lock, Opening, Current too High", "Microswitch signal Front Latch Arm missing?" },
	{ 0x42, 0x49, 319, "Tension Bow, Closing, Current too High", "Rear Latch Arms Microswitch signal missing?" },
	{ 0x42, 0x4a, 320, "Tension Bow, Opening, Current too High", "Tensioner Rib/Bow Microswitch signal missing?" },
	{ 0x51, 0x01, 222, "Vehicle Speed Signal too high", nullptr },
	{ 0x51, 0x02, 221, "Vehicle Speed Signal missing", nullptr },
	{ 0x51, 0x03, 114, "Fuel Level sensor stuck / signal constant for 94 miles", "(P0500) usually due to bad ABS module solders" },
	{ 0x51, 0x04, 112, "Fuel Level signal too low / short to ground", nullptr },
	{ 0x51, 0x05, 113, "Fuel Level signal too High / Low Fuel / short to supply", nullptr },
	{ 0x51, 0x06, 121, "Engine Coolant Temperature signal faulty", "see http://www.volvotips.com/index.php/850-2/volvo-850-s70-v70-c70-service-repair-manual/volvo-850-instrument-panel-service-repair-manual/" },
	{ 0x51, 0x07, 123, "48-pulse output Speed Signal too high / short to supply", nullptr },
	{ 0x51, 0x08, 143, "48-pulse output Speed Signal too low / short to ground", nullptr },
	{ 0x51, 0x09, 131, "12-pulse Speed Signal too high / short to supply", nullptr },
	{ 0x51, 0x0a, 141, "12-pulse Speed Signal too low / short to ground", nullptr },
	{ 0x51, 0x0b, 132, "Engine RPM signal missing", nullptr },
	{ 0x51, 0x0c, 124, "Engine RPM signal faulty", nullptr },
	{ 0x51, 0x0d, 211, "D+ alternator voltage signal too low / missing for >= 10 sec when > 1000 RPM", nullptr },
	{ 0x51, 0x0e, 133, "Fuel Level Signal To Trip Computer too high / short to supply", nullptr },
	{ 0x51, 0x0f, 142, "Ambient Temperature signal missing", "Grey connector sensor at the bumper on 850" },
	{ 0x51, 0x10, 231, "COMBI microprocessor internal fault", nullptr },
	{ 0x51, 0x11, 174, "Wide Disparity in Fuel Levels and/or Fuel Consumption signal missing", "DTC rarely seen; (in 850 especially) DTC 11 Freeze Frame sometimes precedes a Low Fuel situation, occasionally follows a Fillup, and oftentimes persists after clearing COMBI DTCs" },
	{ 0x51, 0x14, -1, "Fuel Consumption signal?", nullptr },
	{ 0x51, 0x15, -1, "Fuel Consumption signal?", nullptr },
	{ 0x51, 0x16, -1, "Fuel Consumption signal?", nullptr },
	{ 0x51, 0x17, -1, "Fuel Consumption signal?", nullptr },
	{ 0x51, 0x20, 232, "COMBI is not yet programmed", nullptr },
	{ 0x51, 0xf8, 231, "COMBI microprocessor internal fault", nullptr },
	{ 0x51, 0xf9, 113, "Fuel Level signal too High / Low Fuel / short to supply", nullptr },
	{ 0x51, 0xfa, 112, "Fuel Level signal too low / short to ground", nullptr },
	{ 0x51, 0xfb, 115, "Fuel Level Sensor Circuit Malfunction", nullptr },
	{ 0x51, 0xfc, 415, "Road Speed Signal missing or faulty", nullptr },
	{ 0x51, 0xfd, 414, "Road Speed Signal missing or faulty", nullptr },
	{ 0x58, 0x01, 112, "Crash Sensor Module internal fault", nullptr },
	{ 0x58, 0x02, 211, "Driver Airbag short circuit", nullptr },
	{ 0x58, 0x03, 212, "Driver Airbag open circuit", nullptr },
	{ 0x58, 0x04, 213, "Driver Airbag short to ground", nullptr },
	{ 0x58, 0x05, 214, "Driver Airbag short to supply", nullptr },
	{ 0x58, 0x06, 221, "Passenger Airbag short circuit", nullptr },
	{ 0x58, 0x07, 222, "Passenger Airbag open circuit", nullptr },
	{ 0x58, 0x08, 223, "Passenger Airbag short to ground", nullptr },
	{ 0x58, 0x09, 224, "Passenger Airbag short to supply", nullptr },
	{ 0x58, 0x0a, 231, "Left Seat Belt Tensioner short circuit", nullptr },
	{ 0x58, 0x0b, 232, "Left Seat Belt Tensioner open circuit", nullptr },
	{ 0x58, 0x0c, 233, "Left Seat Belt Tensioner short circuit to ground", nullptr },
	{ 0x58, 0x0d, 234, "Left Seat Belt Tensioner short circuit to supply", nullptr },
	{ 0x58, 0x0e, 241, "Right Seat Belt Tensioner short circuit", nullptr },
	{ 0x58, 0x0f, 242, "Right Seat Belt Tensioner open circuit", nullptr },
	{ 0x58, 0x10, 243, "Right Seat Belt Tensioner short circuit to ground", nullptr },
	{ 0x58, 0x11, 244, "Right Seat Belt Tensioner short circuit to supply", nullptr },
	{ 0x58, 0x52, 127, "SRS Warning Light short circuit to ground or open circuit", nullptr },
	{ 0x58, 0x53, 128, "SRS Warning Light short circuit to supply", nullptr },
	{ 0x58, 0x65, 127, "SRS Warning Light short circuit to ground or open circuit", nullptr },
	{ 0x58, 0x66, 128, "SRS Warning Light short circuit to supply", nullptr },
	{ 0x58, 0x67, 129, "Battery Voltage signal too low", nullptr },
	{ 0x58, 0x68, 213, "Driver airbag short to ground", nullptr },
	{ 0x58, 0x69, 214, "Driver Airbag short to supply", nullptr },
	{ 0x58, 0x6a, 233, "Left Seat Belt Tensioner short circuit to ground", nullptr },
	{ 0x58, 0x6b, 234, "Left Seat Belt Tensioner short circuit to supply", nullptr },
	{ 0x58, 0x6c, 243, "Right Seat Belt Tensioner short circuit to ground", nullptr },
	{ 0x58, 0x6d, 244, "Right Seat Belt Tensioner short circuit to supply", nullptr },
	{ 0x58, 0x6e, 223, "Passenger Airbag short circuit to ground", nullptr },
	{ 0x58, 0x6f, 224, "Passenger Airbag short circuit to supply", nullptr },
	{ 0x58, 0x70, 313, "Left Rear Seat Belt Tensioner signal too low", nullptr },
	{ 0x58, 0x71, 314, "Left Rear Seat Belt Tensioner signal too high", nullptr },
	{ 0x58, 0x72, 323, "Right Rear Seat Belt Tensioner signal too low", nullptr },
	{ 0x58, 0x73, 324, "Right Rear Seat Belt Tensioner signal too high", nullptr },
	{ 0x58, 0x78, 211, "Driver Airbag short circuit", nullptr },
	{ 0x58, 0x79, 212, "Driver Airbag open circuit", nullptr },
	{ 0x58, 0x7a, 231, "Left Seat Belt Tensioner short circuit", nullptr },
	{ 0x58, 0x7b, 232, "Left Seat Belt Tensioner open circuit", nullptr },
	{ 0x58, 0x7c, 241, "Right Seat Belt Tensioner short circuit", nullptr },
	{ 0x58, 0x7d, 242, "Right Seat Belt Tensioner open circuit", nullptr },
	{ 0x58, 0x7e, 221, "Passenger Airbag short circuit", nullptr },
	{ 0x58, 0x7f, 222, "Passenger Airbag open circuit", nullptr },
	{ 0x58, 0x80, 311, "Left Rear Seat Belt Tensioner short circuit", nullptr },
	{ 0x58, 0x81, 312, "Left Rear Seat Belt Tensioner open circuit", nullptr },
	{ 0x58, 0x82, 321, "Right Rear Seat Belt Tensioner short circuit", nullptr },
	{ 0x58, 0x83, 322, "Right Rear Seat Belt Tensioner open circuit", nullptr },
	{ 0x58, 0x88, 210, "Not programmed for Driver Airbag, but airbag detected", nullptr },
	{ 0x58, 0x89, 230, "Not programmed for Left Seat Belt Tensioner, but tensioner detected", nullptr },
	{ 0x58, 0x8a, 240, "Not programmed for Right Seat Belt Tensioner, but tensioner detected", nullptr },
	{ 0x58, 0x8b, 220, "Not programmed for Passenger Airbag, but airbag detected", nullptr },
	{ 0x58, 0x8c, 310, "Unexpected Left Seat Belt Tensioner configuration", nullptr },
	{ 0x58, 0x8d, 320, "Unexpected Right Seat Belt Tensioner configuration", nullptr },
	{ 0x58, 0xc7, 114, "Three collisions registered", nullptr },
	{ 0x59, 0x01, 412, "Control Module, Internal Fault", nullptr },
	{ 0x59, 0x63, 413, "Transit Safety Catch On", nullptr },
	{ 0x59, 0x65, 427, "ROPS warning Lamp, Faulty Signal", nullptr },
	{ 0x59, 0x66, 428, "ROPS warning Lamp, Signal too High", nullptr },
	{ 0x59, 0x67, 429, "Battery Voltage Signal too Low", nullptr },
	{ 0x59, 0x68, 430, "Solenoids S1, S2, faulty Signal crash bow", nullptr },
	{ 0x59, 0x69, 431, "Left Solenoid S1, Signal too Low", nullptr },
	{ 0x59, 0x6a, 432, "Left Solenoid S1, Signal Missing", nullptr },
	{ 0x59, 0x6b, 433, "Left Solenoid S1, Signal too High", nullptr },
	{ 0x59, 0x6d, 441, "Right Solenoid S2, Signal too Low", nullptr },
	{ 0x59, 0x6e, 442, "Right Solenoid S2, Signal Missing", nullptr },
	{ 0x59, 0x6f, 443, "Right Solenoid S2, Signal too High", nullptr },
	{ 0x59, 0x71, 451, "Solenoids S1, S2, faulty counter Max No. of triggers Done", nullptr },
	{ 0x59, 0x78, 452, "Control Module, handling fault during Self Test", nullptr },
	{ 0x62, 0x10, 112, "Control Module, Internal Fault Memory circuits", nullptr },
	{ 0x62, 0x20, 113, "Control Module, Internal Fault, Internal comms", nullptr },
	{ 0x62, 0x30, 114, "Control Module, Internal Fault, Display screen comms", nullptr },
	{ 0x62, 0x40, 121, "CD-ROM player, temperature too high", nullptr },
	{ 0x62, 0x41, 122, "CD-ROM player, Internal Fault", nullptr },
	{ 0x62, 0x42, 123, "CD-ROM player, Fault in player circuits", nullptr },
	{ 0x62, 0x43, 125, "CD-ROM player, Fault in player circuits", nullptr },
	{ 0x62, 0x44, 124, "CD-ROM player, Fault in comms signal", nullptr },
	{ 0x62, 0x50, 115, "Control Module, Internal Fault, Internal Comms", nullptr },
	{ 0x62, 0x60, 131, "TMC receiver, faulty signal", nullptr },
	{ 0x62, 0x70, 141, "TMC/FM receiver, faulty signal", nullptr },
	{ 0x6e, 0x02, 122, "Shift Solenoid S1 circuit, open", "(P0750) eg, bad wiring or solenoid, poor terminal contact at TCM connector, bad TCM, or low/dirty fluid" },
	{ 0x6e, 0x03, 121, "Shift Solenoid S1 circuit, short to ground", "(P0750) eg, bad wiring, solenoid, or TCM, or low/dirty fluid" },
	{ 0x6e, 0x08, 222, "Shift solenoid S2 circuit fault", "(P0755) eg, bad wiring (see OTP Volvo 850 DVD/USB TP-4312031 p157), bad solenoid, poor terminal contact, bad TCM, or low/dirty fluid" },
	{ 0x6e, 0x09, 221, "Shift solenoid S2 circuit, short to ground", "(P0755) eg, bad wiring or solenoid, or low/dirty fluid" },
	{ 0x6e, 0x0d, 123, "Line Pressure Solenoid STH circuit, short to supply", "(P0745) eg, bad wiring or TCM, bad solenoid, or low/dirty fluid" },
	{ 0x6e, 0x0e, 132, "TCM Fault, amplifier STH short circuit", "(P0745) eg, poor terminal contact at TCM connector, open circuit in TCM voltage supply or grounds, bad TCM, or low/dirty fluid" },
	{ 0x6e, 0x0f, 131, "Line Pressure Solenoid STH circuit, short to ground or open", "eg, bad wiring, bad solenoid, poor terminal contact, bad TCM, or low/dirty fluid" },
	{ 0x6e, 0x12, 331, "Lock-up solenoid SL circuit, short to supply", "(P0740 if USA/Canada model year >= 1997)" },
	{ 0x6e, 0x13, 332, "Lock-up solenoid SL, open circuit", "(P0740 if USA/Canada model year >= 1997) open in signal cable, bad solenoid, open in power ground, poor terminal contact, bad TCM" },
	{ 0x6e, 0x14, 333, "Lock-up solenoid SL circuit, short to ground", "(P0740 if USA/Canada model year >= 1997)" },
	{ 0x6e, 0x17, 213, "Throttle Position Sensor signal too high", "(P0120) >5.4 V for ~10 sec; eg, TPS signal short to supply, TPS sensor circuit failure" },
	{ 0x6e, 0x18, 223, "Throttle Position Sensor signal too low", "(P0120) <0.1 V for ~10 sec; or unplugged - no signal; eg, TPS disconnected, TPS signal short to ground, poor terminal contact, TPS sensor circuit failure\nAfter repairs must they be verified by:\n\n-Ignition on\n-Push down the accelerator pedal to wide open throttle (WOT) and keep it fully depressed.\n-Wait 15 seconds.\n Read off the status DTC.\n\n\nIf the fault is intermittent the indicator and warning lamp will go out after the ignition has been switched on and off a certain number of times. Up to five times.\n\n\n TCM may ask ECM to turn on MIL light." },
	{ 0x6e, 0x1c, 143, "Kickdown switch circuit, signal too low", "see 'https://www.matthewsvolvosite.com/forums/viewtopic.php?f=1&t=71168&start=10#p485175' for possible sources" },
	{ 0x6e, 0x1f, 232, "Vehicle Speed Signal is missing or incorrect", "(P0500) see OTP Volvo 850 DVD/USB TP-4312031 p32, p45, pp183-192, pp403-404 for details" },
	{ 0x6e, 0x23, 311, "Transmission RPM Sensor, no signal", "(P0175) when vehicle speed > ~15 mph/~25 km/h; eg, open or short circuit from bad wiring, bad Transmission RPM Sensor, poor terminal contact" },
	{ 0x6e, 0x28, 321, "Gear 1 incorrect ratio", "(P0731) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes" },
	{ 0x6e, 0x29, 322, "Gear 2 incorrect ratio / Alternatively, on earlier models: Gear Ratio Info Incorrect", "(P0732/P0730) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes" },
	{ 0x6e, 0x2a, 323, "Gear 3 incorrect ratio / Alternatively, on earlier models: Lock-up slips or is not engaged", "(P0733) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes" },
	{ 0x6e, 0x2b, 324, "Gear 4 incorrect ratio", "(P0734) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes" },
	{ 0x6e, 0x2f, 341, "Lock-up function, slipping or not engaged", "(P0740 if USA/Canada model year >= 1997) lock-up activated, yet >100 rpm difference between Engine RPM and Transmission RPM; TCM vs. ECM mismatch, poor terminal contact, mechanical fault in transmission" },
	{ 0x6e, 0x35, 114, "Mode Selector Switch, Signal too High", "short circuit to supply, driving mode selector module, or cluster fault feeding transmission fault light; eg, poor terminal contact, open circuit or short circuit to supply, poor TCM connector terminal contact, driving mode selector module, or cluster fault feeding transmission fault light" },
	{ 0x6e, 0x36, 124, "Mode Selector Switch, faulty or short circuit to ground", "eg, 'W' button depressed > 25 sec, controls sticking, loose parts, bad resistance, bad wiring" },
	{ 0x6e, 0x37, 122, "Shift Solenoid S1 circuit", nullptr },
	{ 0x6e, 0x38, 123, "Line pressure solenoid STH circuit", nullptr },
	{ 0x6e, 0x39, 313, "Gearshift Position Sensor, faulty signal", "(P0705) eg, bad wiring, incorrect adjustment, bad gear-shift position sensor, or terminal contact resistance" },
	{ 0x6e, 0x3a, 131, "Line pressure solenoid STH", nullptr },
	{ 0x6e, 0x3b, 132, "Control Module amp STH", nullptr },
	{ 0x6e, 0x3c, 134, "engine load signal incorrect", "missing Load Signal from ECM when Transmission Input RPM > 600 rpm; bad wiring, poor terminal contact" },
	{ 0x6e, 0x3d, 141, "Oil Temp Sensor", nullptr },
	{ 0x6e, 0x3e, 142, "Oil Temp Sensor", nullptr },
	{ 0x6e, 0x3f, 245, "Torque limiting request not acked by ECM", "eg, open in signal cables TC1/TC2/TCM, short to ground or supply in signal cables TC1/TC2/TCM, terminal contact resistance" },
	{ 0x6e, 0x40, 213, "Throttle Position", nullptr },
	{ 0x6e, 0x41, 221, "Shift solenoid S2 circuit", nullptr },
	{ 0x6e, 0x42, 235, "ATF Temperature too high", ">150 C for ~5 sec / >302 F for ~5 sec; Transmission warning light blinks until temp <140 C / <284 C" },
	{ 0x6e, 0x43, 141, "ATF Temperature Sensor signal too low", "<0.2 V for 25 sec; eg, short to ground in signal circuit, bad ATF Temp Sensor, lock-up may fail" },
	{ 0x6e, 0x44, 142, "ATF Temperature Sensor signal too high", "ATF Temp < -10 C when engine started and did not change after engine on for 10 min; eg, open in signal cable or ground lead, short to supply in signal cable, bad ATF Temp Sensor, bad resistance, etc" },
	{ 0x6e, 0x45, 235, "Oil Temperature", nullptr },
	{ 0x6e, 0x46, -1, "Torque Reduction Signal too Low (V70) / Torque limiting circuit?", nullptr },
	{ 0x6e, 0x47, -1, "Torque Reduction Signal too High (V70) / Transmission RPM signal missing or incorrect?", nullptr },
	{ 0x6e, 0x48, -1, "Control Module Communication / Gear position sensor?", nullptr },
	{ 0x6e, 0x49, 412, "Control Module memory fault", "(P0601 if USA/Canada model year >= 1997) eg, low battery power, bad TCM" },
	{ 0x6e, 0x4a, 322, "Gear 2 incorrect ratio", nullptr },
	{ 0x6e, 0x4b, 323, "Gear 3 incorrect ratio", nullptr },
	{ 0x6e, 0x4c, 324, "Gear 4 incorrect ratio", nullptr },
	{ 0x6e, 0x4d, 331, "Lock-up solenoid SL circuit", nullptr },
	{ 0x6e, 0x4e, 332, "Lock-up solenoid SL circuit", nullptr },
	{ 0x6e, 0x4f, 333, "Lock-up solenoid SL circuit", nullptr },
	{ 0x6e, 0x50, 411, "Control Module EEPROM fault", "eg, low battery power, bad TCM" },
	{ 0x6e, 0x51, 421, "Battery Volts too low", "no supply voltage to TCM #A10 for ~10 sec; eg, open in supply circuit, poor terminal contact, bad TCM" },
	{ 0x6e, 0x55, 511, "TCM-ECM Communication Fault", nullptr },
	{ 0x6e, 0x60, 522, "TCM-ECM Communication Fault", nullptr },
	{ 0x6e, 0x61, 523, "TCM-ECM Communication Fault", nullptr },
	{ 0x6e, 0x62, 524, "TCM-ECM Communication Fault", nullptr },
	{ 0x6e, 0x63, 525, "TCM-ECM Communication Fault", nullptr },
	{ 0x6e, 0x64, 526, "TCM-ECM Communication Fault", nullptr },
	{ 0x6e, 0xe0, 527, "TCM-ECM Communication Fault", nullptr },
	{ 0x7a, 0x09, 415, "Boost Pressure sensor signal", nullptr },
	{ 0x7a, 0x0a, 212, "HO2S sensor signal, front", nullptr },
	{ 0x7a, 0x0c, 153, "HO2S sensor signal, rear", "(P0136 - faulty, P0137 - low, or P0138 - high)" },
	{ 0x7a, 0x0d, 521, "Front HO2S, preheating", nullptr },
	{ 0x7a, 0x0e, 522, "Rear HO2S, preheating malfunction", "(P0141)" },
	{ 0x7a, 0x0f, 435, "Front HO2S slow response", nullptr },
	{ 0x7a, 0x10, 436, "Rear HO2S compensation", "(P0133) see 1st 3 items in Bing search for 'P0133 \"EFI-436\"' and 1st 3 items in Google search" },
	{ 0x7a, 0x11, 425, "Rear HO2S, control (or possibly Temperature warning, level 1)", nullptr },
	{ 0x7a, 0x13, 343, "Fuel Pump Relay", nullptr },
	{ 0x7a, 0x18, 211, "CO Potentiometer", nullptr },
	{ 0x7a, 0x1a, 231, "Long term fuel trim, part load", "(P0171 or P0172) defective MAF, fuel pressure high/low (P0171/P0172), elbow at intake manifold (hidden underneath coolant thermostat) or elbow at PTC or vacuum leaks (if P0172), see OTP Volvo 850 DVD, see 7-step checkup in section including '2-3-1 (Adaptive HO2S Control Lean At Part Load)' of 'http://www.volvotips.com/index.php/850-2/volvo-850-s70-v70-c70-service-repair-manual/volvo-850-diagnostics-with-codes-obd/'" },
	{ 0x7a, 0x1b, 232, "Long term fuel trim, idling", "(P0172 or P0171) elbow at intake manifold (hidden underneath coolant thermostat) or elbow at PTC or vacuum leaks (if P0172), fuel pressure high/low (P0171/P0172), defective MAF, see OTP Volvo 850 DVD, see 10-step checkup in section '2-3-2 (Adaptive HO2S Control Provides Richer Mixture At Idle)' of 'http://www.volvotips.com/index.php/850-2/volvo-850-s70-v70-c70-service-repair-manual/volvo-850-diagnostics-with-codes-obd/'" },
	{ 0x7a, 0x1d, 666, "DTC in transmission CM", nullptr },
	{ 0x7a, 0x28, 443, "Catalyst efficiency", nullptr },
	{ 0x7a, 0x31, 542, "Misfire, multiple cylinders?", nullptr },
	{ 0x7a, 0x32, 451, "Misfire, cylinder 1", "(P0301)" },
	{ 0x7a, 0x33, 452, "Misfire, cylinder 2", "(P0302)" },
	{ 0x7a, 0x34, 453, "Misfire, cylinder 3", "(P0303)" },
	{ 0x7a, 0x35, 454, "Misfire, cylinder 4", "(P0304)" },
	{ 0x7a, 0x36, 455, "Misfire, cylinder 5", "(P0305)" },
	{ 0x7a, 0x37, 456, "Misfire, cylinder 6", "(P0306)" },
	{ 0x7a, 0x39, 353, "Immobilizer", nullptr },
	{ 0x7a, 0x3d, 544, "Misfire, multiple cylinders?", nullptr },
	{ 0x7a, 0x3e, 543, "Misfire, at least one cylinder", "(P0300)" },
	{ 0x7a, 0x3f, 551, "Misfire with catalyst damage, cylinder 1", "(P0301)" },
	{ 0x7a, 0x40, 552, "Misfire with catalyst damage, cylinder 2", "(P0302)" },
	{ 0x7a, 0x41, 553, "Misfire with catalyst damage, cylinder 3", "(P0303)" },
	{ 0x7a, 0x42, 554, "Misfire with catalyst damage, cylinder 4", "(P0304)" },
	{ 0x7a, 0x43, 555, "Misfire with catalyst damage, cylinder 5", "(P0305)" },
	{ 0x7a, 0x44, 556, "Misfire with catalyst damage, cylinder 6", "(P0306)" },
	{ 0x7a, 0x4b, 545, "Misfire with catalyst damage, at least one cylinder", "(P0300)" },
	{ 0x7a, 0x4d, 444, "Acceleration sensor signal", "(P1307 - low or P1308 - high) see OTP 850 DVD, TP-2318201, p149 and p268, for possible sources" },
	{ 0x7a, 0x50, 442, "Pulsed secondary air injection system flow fault", "(P0410) see OTP 850 DVD, TP-2308202, p669 and p78 and p316" },
	{ 0x7a, 0x51, 448, "Pulsed secondary air injection system pump flow fault", "(P0410) see OTP 850 DVD, TP-2308202, p669 and p78 and p361" },
	{ 0x7a, 0x53, 446, "Pulsed secondary air injection system valve leakage", "(P0410) see OTP 850 DVD, TP-2308202, p669 and p78 and p344" },
	{ 0x7a, 0x54, 445, "Pulsed secondary air injection system pump signal", "(P0410) see OTP 850 DVD, TP-2318201, p268 and p44" },
	{ 0x7a, 0x55, 447, "Pulsed secondary air injection system solenoid valve signal", "(P0413 - missing or P0414 - low/high) see OTP 850 DVD, TP-2318201, p268 and p44" },
	{ 0x7a, 0x56, 241, "EGR system", nullptr },
	{ 0x7a, 0x59, 413, "EGR temperature sensor signal", nullptr },
	{ 0x7a, 0x5d, 315, "Canister purge valve leakage", nullptr },
	{ 0x7a, 0x5e, 611, "Fuel Tank system, large leakage", "(P0455) Pressure in fuel tank does not drop rapidly enough" },
	{ 0x7a, 0x5f, 614, "EVAP canister shut off valve flow fault", nullptr },
	{ 0x7a, 0x60, 616, "EVAP canister shut off valve signal", nullptr },
	{ 0x7a, 0x61, 612, "Fuel Tank system, small leakage", "(P0442) While EVAP canister shut-off valve is closed, the canister purge valve is pulsed until reached specific vacuum and this vacuum level has not stayed long enough. Check fuel cap seated and sealed properly, leaking fuel tank, filler pipe, EVAP canister or its shut-off valve, lines connecting any of those, or bad fuel tank pressure sensor" },
	{ 0x7a, 0x62, 541, "Canister purge valve signal", nullptr },
	{ 0x7a, 0x63, 621, "Fuel tank pressure sensor signal", nullptr },
	{ 0x7a, 0x65, 112, "MFI Control Module fault", nullptr },
	{ 0x7a, 0x67, 112, "Memory Fault (ROM) In Engine Control Module", nullptr },
	{ 0x7a, 0x6b, 132, "Battery Voltage", nullptr },
	{ 0x7a, 0x6d, 315, "Canister purge valve leakage", nullptr },
	{ 0x7a, 0x6e, 131, "RPM sensor signal missing", "on gearbox casing, also known as Crankshaft sensor, should get reading of 200 to 400 Ohms with multimeter. Two pole connector." },
	{ 0x7a, 0x6f, 214, "RPM sensor signal sporadic/faulty", "on gearbox casing, also known as Crankshaft sensor, should get reading of 200 to 400 Ohms with multimeter. Two pole connector." },
	{ 0x7a, 0x70, 314, "Camshaft Position sensor signal", "(P0340) next to distributor, cannot verify ohm readings as its all over place from 2k to millions of ohms. When cranking you should get 1.5 to 2hz reading. Dont unplug sensor needs power to work. see OTP 850 DVD, TP-2308202, p262 for possible sources" },
	{ 0x7a, 0x73, 121, "Mass Air Flow sensor signal", nullptr },
	{ 0x7a, 0x75, 411, "Throttle Position sensor signal", nullptr },
	{ 0x7a, 0x77, 422, "Atmospheric pressure sensor signal", nullptr },
	{ 0x7a, 0x78, 311, "Engine RPM high for too long while no Vehicle Speed measured", "(P0500) Speedometer signal faulty; short circuit, open circuit, contact resistance, or faulty speedometer, ABS, or COMBI; see OTP 850 DVD: TP-2308202, p253, p669; see www.volvopedia.de/index.php?title=EFI-311" },
	{ 0x7a, 0x79, 355, "Mass air flow sensor, faulty signal", nullptr },
	{ 0x7a, 0x7a, 112, "Fault in Engine Control Module NTC switch", nullptr },
	{ 0x7a, 0x7b, 123, "Engine Coolant Temperature sensor", "(P0116 - faulty, P0117 - low, P0118 - high, or P0115 - missing) see OTP 850 DVD: TP-2308202, p107, p668; see 'http://www.volvopedia.de/index.php?title=EFI-123#Motronic_4.4'" },
	{ 0x7a, 0x7c, 251, "Ambient Temperature sensor signal", "(P0111 - sporadic, P0112 - low, or P0113 - high) see OTP 850 DVD: TP-2318201, p105, p266" },
	{ 0x7a, 0x7f, 112, "Fault in Engine Control Module Temperature", nullptr },
	{ 0x7a, 0x80, 432, "Temperature warning, level 1", nullptr },
	{ 0x7a, 0x81, 513, "Temperature warning, level 2", nullptr },
	{ 0x7a, 0x82, 225, "A/C pressure sensor signal", nullptr },
	{ 0x7a, 0x96, 115, "Injector 1", nullptr },
	{ 0x7a, 0x97, 125, "Injector 2", nullptr },
	{ 0x7a, 0x98, 135, "Injector 3", nullptr },
	{ 0x7a, 0x99, 145, "Injector 4", nullptr },
	{ 0x7a, 0x9a, 155, "Injector 5", nullptr },
	{ 0x7a, 0x9b, 165, "Injector 6", nullptr },
	{ 0x7a, 0xa4, 335, "Communication failure between TCM and ECM", "(P1618 - High or P1617 - Low/Missing/Faulty) check grounds 31/71, 31/32, 31/33; check TCM pin B15 to M44 pin B26 circuit & connections; see OTP 850 DVD: TP-2308032, pp275-280; TP-2318201, p43, p269" },
	{ 0x7a, 0xa8, 223, "Idle Air Control valve opening signal", nullptr },
	{ 0x7a, 0xa9, 245, "IAC valve closing signal", nullptr },
	{ 0x7a, 0xaa, 233, "Adaptive idle air trim", nullptr },
	{ 0x7a, 0xb4, 531, "Power stage group A", nullptr },
	{ 0x7a, 0xb5, 532, "Power stage group B", nullptr },
	{ 0x7a, 0xb6, 533, "Power stage group C", nullptr },
	{ 0x7a, 0xb7, 534, "Power stage group D", nullptr },
	{ 0x7a, 0xb8, 536, "Power stage group E", nullptr },
	{ 0x7a, 0xb9, 537, "Power stage group F?", nullptr },
	{ 0x7a, 0xd2, 143, "Front knock sensor", nullptr },
	{ 0x7a, 0xd3, 433, "Rear knock sensor", nullptr },
	{ 0x7a, 0xde, 112, "Fault in Engine Control Module Knock Control", nullptr },
	{ 0x7a, 0xe1, 233, "Idle air trim", nullptr },
	{ 0x7a, 0xe5, 416, "Boost pressure reduction from TCM", nullptr },
	{ 0x7a, 0xe6, 414, "Boost pressure regulation", nullptr },
	{ 0x7a, 0xed, 112, "Fault in Engine Control Module NTC switch", nullptr },
	{ 0x7a, 0xee, 432, "Temperature warning, level 1", nullptr },
	{ 0x7a, 0xef, 513, "Temperature warning, level 2", nullptr },
	{ 0x7a, 0xf1, 154, "EGR system leakage", nullptr },
	{ 0x7a, 0xf4, 535, "Turbocharger control valve signal", nullptr },
	{ 0x7a, 0xfd, 514, "Engine coolant fan, low speed", nullptr },
	{ 0x7a, 0xfe, 621, "Fuel tank pressure sensor signal", nullptr },
};
}
