PROPS = {
 "K01": dict(units=[dict(driver="kalman.cpp", aux_contracts=True)]),
 "K02": dict(units=[dict(driver="kalman_psd.cpp", aux_contracts=True)]),
 "K03": dict(units=[dict(driver="kalman_frame.cpp")]),
 "M01": dict(units=[dict(driver="matrix.cpp", only="access.*|iterate.*")]),
 "M02": dict(units=[dict(driver="matrix.cpp", only="elementwise.*|with1x1.*|scalar1x1.*")]),
 "M03": dict(units=[dict(driver="matrix.cpp", only="product.*")]),
 "M04": dict(units=[dict(driver="matrix.cpp", only="transposed.*|eye.*")]),
 "M05": dict(units=[dict(driver="matrix.cpp", only="inverted.*")]),
 "M06": dict(units=[dict(driver="matrix.cpp", only="construct.*|list.*")]),
 "A01": dict(units=[dict(driver="algorithm.cpp")]),
 "R01": dict(units=[dict(driver="range.cpp")]),
}
PROPS.update({
 "F01": dict(units=[dict(driver="fixed.cpp", only="real_.*|integer_.*")]),
 "F02": dict(units=[dict(driver="fixed.cpp", only="linear_.*|mixed.*")]),
 "F03": dict(units=[dict(driver="fixed.cpp", only="product_.*|quotient_.*")]),
 "F04": dict(units=[dict(driver="fixed.cpp", only="as_.*")]),
})
PROPS.update({
 "B01": dict(units=[dict(driver="biquad.cpp", only="difference_.*|forms_agree|linear|complex_signal.*")]),
 "B02": dict(units=[dict(driver="biquad.cpp", only="identity.*")]),
 "B03": dict(units=[dict(driver="biquad.cpp", only="solve|poles_zeros|from_zpk|zpk_trip")]),
 "B04": dict(units=[dict(driver="biquad.cpp", only="stable")]),
 "B05": dict(units=[dict(driver="biquad.cpp", only="response")]),
})
PROPS.update({
 "C01": dict(units=[dict(driver="cascade.cpp", only="sequence.*")]),
 "C02": dict(units=[dict(driver="cascade.cpp", only="composition.*|stable.*|response.*")]),
})
PROPS.update({
 "D01": dict(units=[dict(driver="design.cpp", only="prototype_.*")]),
 "D02": dict(units=[dict(driver="design.cpp", only="stable_.*")]),
 "D03": dict(units=[dict(driver="design.cpp", only="decibel.*")]),
 "O01": dict(units=[dict(driver="design.cpp", only="onepole_filter|onepole_pole|onepole_response")]),
 "O02": dict(units=[dict(driver="design.cpp", only="onepole_design.*")]),
})
PROPS.update({
 "E01": dict(units=[dict(driver="chebyshev.cpp")]),
})

PROPS.update({
 "G01": dict(units=[dict(driver="mcu_register.cpp", target="avr", only="field.*|policies.*")]),
 "G02": dict(units=[dict(driver="mcu_register.cpp", target="avr", only="lazy.*")]),
 "G03": dict(units=[dict(driver="mcu_register.cpp", target="avr", only="atomic.*")]),
})
PROPS.update({
 "G04": dict(units=[dict(driver="mcu_atmega.cpp", target="avr", only="settings_.*|registers_.*")]),
 "G05": dict(units=[dict(driver="mcu_atmega.cpp", target="avr", only="flags_.*|force_.*")]),
 "G06": dict(units=[dict(driver="mcu_atmega.cpp", target="avr", only="twi_.*")]),
 "G07": dict(units=[dict(driver="mcu_atmega.cpp", target="avr", only="pins_.*|pwm|status_register|registers_core")]),
})

for k, o in (("F01", "integer_.*"), ("F02", "linear_.*|mixed.*"), ("F03", "product_.*|quotient_.*"), ("F04", "as_integer_.*|as_split")):
    PROPS[k]["units"].append(dict(driver="fixed.cpp", target="avr", only=o))
for k in ("K01","K02","K03","M01","M02","M03","M04","M06","A01"):
    for u in list(PROPS[k]["units"]): PROPS[k]["units"].append(dict(u, target="avr"))
PROPS["T01"] = dict(units=[dict(driver="stdsubset.cpp", target="avr")])
PROPS["X01"] = dict(units=[dict(driver="text.cpp")])
