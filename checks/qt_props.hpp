// the object of qt_props.cpp (a header of its own for Qt's compiler)
#pragma once

#include <QObject>
#include <QString>
#include <lager/extra/qt.hpp>
#ifndef Q_MOC_RUN
#include <lager/lenses/attr.hpp>
#include <lager/with.hpp>
#endif

namespace props {

struct Model
{
    int a = 0, b = 0;
    QString text;
    bool operator==(const Model& o) const { return a == o.a && b == o.b && text == o.text; }
    bool operator!=(const Model& o) const { return !(*this == o); }
};

class Object : public QObject
{
    Q_OBJECT

public:
    Object(int id, lager::cursor<Model> m)
        : LAGER_QT(id){id}
        , LAGER_QT(a){m[&Model::a]}
        , LAGER_QT(b){m[&Model::b]}
        , LAGER_QT(text){m[&Model::text]}
        , LAGER_QT(sum){m.map([](const Model& v) { return v.a + v.b; })}
        , LAGER_QT(less){lager::with(m[&Model::a], m[&Model::b]).map([](int a, int b) { return a < b; })}
    {
    }

    LAGER_QT_CONST(int, id);
    LAGER_QT_CURSOR(int, a);
    LAGER_QT_CURSOR(int, b);
    LAGER_QT_CURSOR(QString, text);
    LAGER_QT_READER(int, sum);
    LAGER_QT_READER(bool, less);
};

} // namespace props
