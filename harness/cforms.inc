// generated by tools/gen_cforms.py
F(z + w)
F(z + cz)
F(cz + z)
F(z + x)
F(x + z)
F(z + s)
F(s + z)
F(z + x*y)
F(x*y + z)
F(x + cz)
F(cz + x)
F(x*y + cz)
F(cz + x*y)
F(z + -x)
F(-x + z)
F(cz + -x)
F(-x + cz)
F(z + z)
F(z*w + z)
F(z + w*z)
F(z + (x+s))
F((x+s) + z)
F(z + sin(x))
F(cos(y) + z)
F((z+w) + (z-w))
F((z+x) + s)
F(s + (w*x))
F(cz + sin(x))
F(sin(x) + cz)
F(z - w)
F(z - cz)
F(cz - z)
F(z - x)
F(x - z)
F(z - s)
F(s - z)
F(z - x*y)
F(x*y - z)
F(x - cz)
F(cz - x)
F(x*y - cz)
F(cz - x*y)
F(z - -x)
F(-x - z)
F(cz - -x)
F(-x - cz)
F(z - z)
F(z*w - z)
F(z - w*z)
F(z - (x+s))
F((x+s) - z)
F(z - sin(x))
F(cos(y) - z)
F((z+w) - (z-w))
F((z+x) - s)
F(s - (w*x))
F(cz - sin(x))
F(sin(x) - cz)
F(z * w)
F(z * cz)
F(cz * z)
F(z * x)
F(x * z)
F(z * s)
F(s * z)
F(z * x*y)
F(x*y * z)
F(x * cz)
F(cz * x)
F(x*y * cz)
F(cz * x*y)
F(z * -x)
F(-x * z)
F(cz * -x)
F(-x * cz)
F(z * z)
F(z*w * z)
F(z * w*z)
F(z * (x+s))
F((x+s) * z)
F(z * sin(x))
F(cos(y) * z)
F((z+w) * (z-w))
F((z+x) * s)
F(s * (w*x))
F(cz * sin(x))
F(sin(x) * cz)
F(z / w)
F(z / cz)
F(cz / z)
F(z / x)
F(x / z)
F(z / s)
F(s / z)
F(z / x*y)
F(x*y / z)
F(x / cz)
F(cz / x)
F(x*y / cz)
F(cz / x*y)
F(z / -x)
F(-x / z)
F(cz / -x)
F(-x / cz)
F(z / z)
F(z*w / z)
F(z / w*z)
F(z / (x+s))
F((x+s) / z)
F(z / sin(x))
F(cos(y) / z)
F((z+w) / (z-w))
F((z+x) / s)
F(s / (w*x))
F(cz / sin(x))
F(sin(x) / cz)
B(t += w)
B(t += cz)
B(t += x)
B(t += s)
B(t += t)
B(t += t.real())
B(t += t.imag())
B(t += real(t))
B(t += x*y)
B(t += w*z)
B(t += (t+w))
B(t += -x)
B(t -= w)
B(t -= cz)
B(t -= x)
B(t -= s)
B(t -= t)
B(t -= t.real())
B(t -= t.imag())
B(t -= real(t))
B(t -= x*y)
B(t -= w*z)
B(t -= (t+w))
B(t -= -x)
B(t *= w)
B(t *= cz)
B(t *= x)
B(t *= s)
B(t *= t)
B(t *= t.real())
B(t *= t.imag())
B(t *= real(t))
B(t *= x*y)
B(t *= w*z)
B(t *= (t+w))
B(t *= -x)
B(t /= w)
B(t /= cz)
B(t /= x)
B(t /= s)
B(t /= t)
B(t /= t.real())
B(t /= t.imag())
B(t /= real(t))
B(t /= x*y)
B(t /= w*z)
B(t /= (t+w))
B(t /= -x)
F(+z)
F(-z)
F(-(z * w))
F(+(z + x))
F(exp(z))
F(exp(z * w))
F(exp(z + cz))
F(exp(z - x))
F(log(z))
F(log(z * w))
F(log(z + cz))
F(log(z - x))
F(log10(z))
F(log10(z * w))
F(log10(z + cz))
F(log10(z - x))
F(sqrt(z))
F(sqrt(z * w))
F(sqrt(z + cz))
F(sqrt(z - x))
F(sin(z))
F(sin(z * w))
F(sin(z + cz))
F(sin(z - x))
F(cos(z))
F(cos(z * w))
F(cos(z + cz))
F(cos(z - x))
F(tan(z))
F(tan(z * w))
F(tan(z + cz))
F(tan(z - x))
F(asin(z))
F(asin(z * w))
F(asin(z + cz))
F(asin(z - x))
F(acos(z))
F(acos(z * w))
F(acos(z + cz))
F(acos(z - x))
F(atan(z))
F(atan(z * w))
F(atan(z + cz))
F(atan(z - x))
F(sinh(z))
F(sinh(z * w))
F(sinh(z + cz))
F(sinh(z - x))
F(cosh(z))
F(cosh(z * w))
F(cosh(z + cz))
F(cosh(z - x))
F(tanh(z))
F(tanh(z * w))
F(tanh(z + cz))
F(tanh(z - x))
F(asinh(z))
F(asinh(z * w))
F(asinh(z + cz))
F(asinh(z - x))
F(acosh(z))
F(acosh(z * w))
F(acosh(z + cz))
F(acosh(z - x))
F(atanh(z))
F(atanh(z * w))
F(atanh(z + cz))
F(atanh(z - x))
F(conj(z))
F(conj(z * w))
F(conj(z + cz))
F(conj(z - x))
F(proj(z))
F(proj(z * w))
F(proj(z + cz))
F(proj(z - x))
F(abs(z))
F(abs(z * w))
F(abs(z / w))
F(abs(cz * z))
F(arg(z))
F(arg(z * w))
F(arg(z / w))
F(arg(cz * z))
F(norm(z))
F(norm(z * w))
F(norm(z / w))
F(norm(cz * z))
F(real(z))
F(real(z * w))
F(real(z / w))
F(real(cz * z))
F(imag(z))
F(imag(z * w))
F(imag(z / w))
F(imag(cz * z))
F(norm(x))
F(norm(x * y))
F(norm(-x))
F(arg(x))
F(arg(x * y))
F(arg(-x))
F(conj(x))
F(conj(x * y))
F(conj(-x))
F(proj(x))
F(proj(x * y))
F(proj(-x))
F(real(x))
F(imag(x))
F(z.real())
F(z.imag())
F(z.real() * z.imag())
F(real(x * y))
F(imag(-x))
F(pow(z, w))
F(pow(z, x))
F(pow(x, z))
F(pow(z, cz))
F(pow(cz, z))
F(pow(z, s))
F(pow(s, z))
F(pow(z, x * y))
F(pow(x * y, z))
F(pow(z * w, z))
F(pow(z, -x))
F(pow(-x, z))
F(pow(z, z))
F(pow(z, (int)(i)))
F(pow((int)(i), z))
F(pow(z, (short)(i)))
F(pow((short)(i), z))
F(pow(z, (long)(i)))
F(pow((long)(i), z))
F(pow(z, (long long)(i)))
F(pow((long long)(i), z))
F(pow(z, (unsigned)(i)))
F(pow((unsigned)(i), z))
F(pow(z, (unsigned short)(i)))
F(pow((unsigned short)(i), z))
F(pow(z, (unsigned long)(i)))
F(pow((unsigned long)(i), z))
F(pow(z, (unsigned long long)(i)))
F(pow((unsigned long long)(i), z))
F(polar(x, y))
F(polar(x, s))
F(polar(s, x))
F(polar(x * y, s))
F(polar(x * y, y))
F(polar(x, y * s))
F(polar(-x, y))
F(polar(x, -y))
F(polar(x * y, x + y))
F(polar(x * y, -y))
F(polar(-x, x * y))
F(polar(s, x * y))
F(polar(s, -x))
F(polar(-x, s))
F(std::complex<T>(x, y))
F(std::complex<T>(x))
F(std::complex<T>(x * y, y))
F(std::complex<T>(x, s))
F(std::complex<T>(s, x))
F(std::complex<T>(s))
F(std::complex<T>(cz))
F(std::complex<T>(z))
F(std::complex<T>(x, -y))
F(std::complex<T>())
F(std::complex<T>(z.imag(), z.real()))
B(t = x)
B(t = s)
B(t = cz)
B(t = w)
B(t = z * t)
B(t = x * y)
B(t = t)
B(t.real(x))
B(t.imag(y))
B(t.real(t.imag()))
B(t.imag(x * y))
B(t.real(s))
B(std::swap(t, (u = w)); t *= u)
B(t = std::move(u))
B(u = t; u *= t; t += u)
B(t *= t; t *= t)
B(t /= t; t += z)
B(t += t; t -= w; t *= t.imag())
B(t = conj(t); t *= z)
B(std::vector<std::complex<T>> v(3, t); v.push_back(w); v[0] *= v[3]; v.erase(v.begin() + 1); t = v[0] + v[1] * v[2])
B(t = t.real())
B(t = t.imag() * t)
F(exp(z) * w + pow(z, 2) / (w * w + s))
F(sqrt(z * z + w * w) - log(z) * cz)
F(norm(z) * z / abs(w))
F(polar(abs(z), arg(z)) - z)
F(sin(z) * sin(z) + cos(z) * cos(z))
F(tan(z) - sin(z) / cos(z))
F(exp(log(z)))
F(z * conj(z) - norm(z))
F(acos(z) + asin(z))
F(atan(z) + atan(w))
F(sinh(asinh(z)) * tanh(w))
