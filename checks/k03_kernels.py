"""Kernels written in the documented subset of Python that JIT mode translates to C."""
import math   # noqa
from parcels import ParcelsRandom   # noqa
from parcels.tools.statuscodes import ErrorCode, OperationCode, StateCode   # noqa


def arith(particle, fieldset, time):
    particle.o1 = particle.a - particle.b - particle.c
    particle.o2 = particle.a - (particle.b - particle.c) * particle.d
    particle.o3 = -(particle.a + particle.b) * particle.c - +particle.d
    particle.o4 = particle.a / particle.e / particle.f - particle.a / (particle.e / particle.f)


def power(particle, fieldset, time):
    particle.o1 = particle.a ** 2 - particle.b ** 3
    particle.o2 = (particle.a - particle.b) ** 2 * particle.c
    particle.o3 = -particle.a ** 2
    particle.o4 = particle.c * 2 ** 3


def intdiv(particle, fieldset, time):
    particle.o1 = particle.n / 2
    particle.o2 = 1 / 2 * particle.a
    particle.o3 = particle.n / particle.m
    particle.o4 = (particle.n + 1) / 4 - particle.n / (particle.m + 4)


def localint(particle, fieldset, time):
    k = 3
    j = particle.n
    particle.o1 = k / 2 + j / 4
    particle.o2 = (k + j) / particle.m
    k /= 2
    particle.o3 = k


def augment(particle, fieldset, time):
    particle.o1 += particle.a
    particle.o1 *= particle.b - 1
    particle.o2 -= particle.a - particle.b
    particle.o3 /= particle.e + 1
    particle.o1 -= particle.o2
    x = particle.a
    x += 2
    x *= x - 1
    particle.o4 = x
    particle.n += 2
    particle.m -= 1


def boolmix(particle, fieldset, time):
    if (particle.a > 0 or particle.b > 0) and particle.c > 0:
        particle.o1 = 1
    if particle.a > 0 or particle.b > 0 and particle.c > 0:
        particle.o2 = 1
    if not (particle.a > 0 and particle.b > 0):
        particle.o3 = 1
    if not particle.a > 0 and particle.b > 0:
        particle.o4 = 1


def boolmix2(particle, fieldset, time):
    if particle.a > 0 and (particle.b > 0 or particle.c > 0) and not (particle.d > 0 or particle.a > 1):
        particle.o1 = 1
    if (particle.a > 0 and particle.b > 0) or (particle.c > 0 and particle.d > 0):
        particle.o2 = 1
    if (particle.a > 0 or particle.b > 0) and (particle.c > 0 or particle.d > 0):
        particle.o3 = 1
    if (particle.a > 0) == (particle.b > 0):
        particle.o4 = 1


def boolmix3(particle, fieldset, time):
    if (particle.a < particle.b) != (particle.c < particle.d):
        particle.o1 = 1
    if particle.a <= particle.b and particle.b >= particle.c or particle.a == particle.c:
        particle.o2 = 1
    if True and particle.a != particle.b:
        particle.o3 = 1
    if (particle.a > 0) * (particle.b > 0) + (particle.c > 0) >= 1:
        particle.o4 = 1


def chain(particle, fieldset, time):
    if particle.a > 1:
        particle.o1 = 1
    elif particle.a > 0:
        particle.o1 = 2
        if particle.b > 0:
            particle.o2 = 3
        else:
            particle.o2 = 4
    elif particle.b > particle.c:
        particle.o1 = 5
    else:
        particle.o1 = 6
        if particle.b > 1:
            pass
        elif particle.b < -1:
            particle.o3 = 1
        particle.o4 = 2


def localvars(particle, fieldset, time):
    x = particle.a * 2
    y = x - particle.b
    (x, z) = (y, x + 1)
    particle.o1 = x
    particle.o2 = y * z
    if x > z:
        w = x
    else:
        w = -z
    particle.o3 = w
    particle.o4 = z


def while0(particle, fieldset, time):
    x = particle.a
    k = 0
    while x > 1:
        x = x - 1
        k += 1
    particle.o1 = x
    particle.o2 = k
    while k < particle.n:
        k += 2
        if x < particle.b:
            break
        x -= particle.e
    particle.o3 = k
    particle.o4 = x


def while1(particle, fieldset, time):
    while particle.n < 3 and (particle.a > 0 or particle.b > 0):
        particle.n += 1
        if particle.n == particle.m:
            break
        particle.o1 += particle.c
    i = 0
    while i < 2:
        j = 0
        while j < i:
            particle.o2 += particle.a
            j += 1
        i += 1


def mathfun(particle, fieldset, time):
    particle.o1 = math.cos(particle.a) * math.sin(particle.b) + math.pi
    particle.o2 = math.sqrt(particle.e) + math.fabs(particle.a - particle.b)
    particle.o3 = math.exp(particle.a) + math.log(particle.e) - math.atan2(particle.a, particle.b)
    particle.o4 = math.tan(particle.a) + math.pow(particle.e, 2)


def mathfun2(particle, fieldset, time):
    particle.o1 = math.floor(particle.a) + math.ceil(particle.b)
    particle.o2 = min(particle.a, particle.b) - max(particle.c, particle.d)
    particle.o3 = math.fmod(particle.e, particle.f)
    particle.o4 = max(min(particle.a, 1), -1) * 2


def absfun(particle, fieldset, time):
    particle.o1 = abs(particle.a)
    particle.o2 = abs(particle.a - particle.b) * particle.c
    if abs(particle.d) > 0.5:
        particle.o3 = 1


def consts(particle, fieldset, time):
    particle.o1 = fieldset.c1 * particle.a + fieldset.c2
    if particle.b > fieldset.c2:
        particle.o2 = fieldset.c1
    particle.o3 = 1.5e1 * particle.c - fieldset.c1 / 4


def order(particle, fieldset, time):
    particle.lon = particle.a
    particle.lat += particle.lon
    particle.a = particle.b
    particle.b = particle.lon
    particle.depth = particle.depth - particle.a * particle.dt
    particle.o1 = time + particle.time


def inttypes(particle, fieldset, time):
    particle.n = particle.n * 2 - particle.m
    if particle.n == particle.m:
        particle.o1 = 1
    elif particle.n > 2 * particle.m:
        particle.o1 = particle.n
    particle.o2 = particle.id + particle.n


def sample(particle, fieldset, time):
    particle.o1 = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.o2 = fieldset.P[time, particle.depth, particle.lat, particle.lon] * 2 - fieldset.Q[time, particle.depth, particle.lat, particle.lon]
    particle.o3 += fieldset.Q[time, particle.depth, particle.lat, particle.lon + 0.5]
    x = math.fabs(fieldset.P[particle])
    particle.o4 = x


def sampleif(particle, fieldset, time):
    if fieldset.P[time, particle.depth, particle.lat, particle.lon] > particle.a:
        particle.o1 = 1
        particle.o2 = particle.b
    else:
        particle.o1 = 2
    particle.o3 = 3


def sampleif2(particle, fieldset, time):
    if fieldset.P[time, particle.depth, particle.lat, particle.lon] > fieldset.Q[time, particle.depth, particle.lat, particle.lon] and particle.a > 0:
        if particle.b > 0:
            particle.o1 = fieldset.P[time, particle.depth, particle.lat, particle.lon]
        else:
            particle.o1 = 5
        particle.o2 = fieldset.Q[time, particle.depth, particle.lat, particle.lon]
    particle.o3 = 3


def sampleelif(particle, fieldset, time):
    if particle.a > 0:
        particle.o1 = 1
    elif fieldset.P[time, particle.depth, particle.lat, particle.lon] > particle.b:
        particle.o1 = 2
        particle.o2 = 7
    else:
        particle.o1 = 3
    particle.o3 = 1


def samplenest(particle, fieldset, time):
    if particle.a > 0:
        if fieldset.P[time, particle.depth, particle.lat, particle.lon] > particle.b:
            particle.o1 = 1
        else:
            particle.o1 = 2
        particle.o2 = 4
    else:
        if fieldset.P[time, particle.depth, particle.lat, particle.lon] < particle.c:
            if particle.d > 0:
                particle.o3 = 1
            particle.o4 = 2
        particle.o2 = 5


def sampletwo(particle, fieldset, time):
    if fieldset.P[time, particle.depth, particle.lat, particle.lon] > particle.a and fieldset.Q[time, particle.depth, particle.lat, particle.lon] > particle.b:
        particle.o1 = 1
    if fieldset.P[time, particle.depth, particle.lat, particle.lon] > 0:
        particle.o2 = 1
        particle.o3 = 2
        particle.o4 = 3


def samplereuse(particle, fieldset, time):
    x = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    if x > particle.a:
        particle.o1 = 1
        particle.o2 = x
    if x * x > 2 and fieldset.Q[particle] < x:
        particle.o3 = 1
    particle.o4 = x


def samplevec(particle, fieldset, time):
    (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
    lon1 = particle.lon + u * 0.125
    lat1 = particle.lat - v * 0.125
    particle.o1 = lon1
    particle.o2 = lat1
    if u > particle.a and v < particle.b:
        particle.o3 = u - v
    particle.o4 = u * v


def samplesum(particle, fieldset, time):
    particle.o1 = 2 * fieldset.S[time, particle.depth, particle.lat, particle.lon]
    particle.o2 = particle.a - fieldset.S[time, particle.depth, particle.lat, particle.lon]
    if fieldset.S[time, particle.depth, particle.lat, particle.lon] > particle.a:
        particle.o3 = 1
        particle.o4 = 2


def samplewhile(particle, fieldset, time):
    while fieldset.P[time, particle.depth, particle.lat, particle.lon] > particle.a:
        particle.a += 4
        particle.o1 += 1
        if particle.o1 > 2:
            break
    particle.o2 = 1


def earlyret(particle, fieldset, time):
    particle.o1 = 1
    if particle.a > 0:
        particle.o2 = 1
        if particle.b > 0:
            return StateCode.Success
        particle.o3 = 1
    particle.o4 = 1


def deleter(particle, fieldset, time):
    particle.o1 = particle.a
    if particle.a > particle.b and particle.c > 0:
        particle.delete()


def err(particle, fieldset, time):
    particle.o1 = 1
    if particle.a > 0:
        return ErrorCode.ErrorInterpolation
    elif particle.b > 0:
        return ErrorCode.ErrorOutOfBounds
    elif particle.c > 0:
        return ErrorCode.Error
    particle.o2 = 1


def stateset(particle, fieldset, time):
    if particle.a > 0:
        particle.state = ErrorCode.ErrorOutOfBounds
    particle.o1 = 1


def movers(particle, fieldset, time):
    particle.lon += particle.a * particle.dt
    particle.lat += 0.5 * particle.b * particle.dt
    particle.depth = particle.depth - particle.c
    particle.o1 += particle.dt


def first(particle, fieldset, time):
    tmpa = particle.a * 2
    particle.o1 = tmpa
    particle.o2 = particle.o2 + 1


def second(particle, fieldset, time):
    tmpb = particle.o1 - 1
    if tmpb > particle.b:
        particle.o3 = tmpb
    particle.o2 = particle.o2 * 2


def arrays(particle, fieldset, time):
    tarr = [1.5, 2.5, 3.5]
    marr = [[1., 2.], [3., 4.]]
    particle.o1 = tarr[0] * particle.a + tarr[2]
    particle.o2 = marr[1][0] * particle.b - marr[0][1]


def scalars_after(particle, fieldset, time):
    tarr = particle.a + 1
    particle.o1 = tarr * 2


def modulo(particle, fieldset, time):
    particle.o1 = particle.n % 3
    particle.o2 = (particle.n + particle.m) % 2
    if particle.n % 2 == 1:
        particle.o3 = 1


def modfloat(particle, fieldset, time):
    particle.o1 = particle.a % 2
    if particle.a % 1.5 > particle.e:
        particle.o2 = 1
