ID = "c06-first-condition-only"
PROP = "C06"
NEEDS = "a link with two alternative conditions on the same event and transition, the first guarded by a test that fails"
BREAKS = "when the guard of one condition fails the other conditions of the link are not tried"
EDITS = [("lib/Document.cpp", """          pred = cond.predicate;
          if (pred != nullptr && !this->evalPredicate (pred))
            continue;
""", """          pred = cond.predicate;
          if (pred != nullptr && !this->evalPredicate (pred))
            break;
""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><head><connectorBase><causalConnector id='k'>"
      "<compoundCondition operator='or'>"
      "<compoundCondition operator='and'>"
      "<simpleCondition role='onBegin'/>"
      "<assessmentStatement comparator='eq'>"
      "<attributeAssessment role='v' eventType='attribution' "
      "attributeType='nodeProperty'/><valueAssessment value='1'/>"
      "</assessmentStatement></compoundCondition>"
      "<simpleCondition role='again' eventType='presentation' "
      "transition='starts'/></compoundCondition>"
      "<simpleAction role='start'/></causalConnector></connectorBase></head>"
      "<body><port id='p' component='m'/>"
      "<media id='m'><property name='x' value='0'/></media><media id='n'/>"
      "<link xconnector='k'><bind role='onBegin' component='m'/>"
      "<bind role='again' component='m'/>"
      "<bind role='v' component='m' interface='x'/>"
      "<bind role='start' component='n'/></link></body></ncl>"));
  d.ticks (2, 100);
  CHECK (d.st ("m") == 'O');
  CHECK (d.st ("n") == 'O');
}
'''
